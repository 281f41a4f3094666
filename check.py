#!/opt/veriftools/pyvenv/bin/python3
"""Decide one property by symbolic execution of the code in /repo (see DESIGN.md).

usage: check.py PROPERTY [--only HARNESS] [--keep] [-v]
exit 0: held on everything explored; exit 1 + VIOLATION line: a replayed counterexample; exit 2: no answer
"""
import concurrent.futures as cf
import glob
import json
import multiprocessing
import os
import pickle
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
REPO = os.environ.get('VP_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = int(os.environ.get('VP_JOBS', '8'))
BUDGET = dict(quick=600, thorough=3 * 3600)[TIER]
HARNESS_S = dict(quick=400, thorough=5400)[TIER]
OUT = os.path.join(HERE, 'out')

HOST_FLAGS = ['-std=c++17', '-I' + REPO + '/include', '-I' + HERE + '/harness', '-fno-exceptions', '-w', 
              '-ffp-contract=off', '-fno-elide-constructors']
AVR_FLAGS = ['--target=avr', '-mmcu=atmega328p', '-std=c++17', '-isystem', '/usr/lib/avr/include',
             '-I' + REPO + '/include', '-I' + HERE + '/harness', '-fno-exceptions', '-fno-threadsafe-statics', '-w',
             '-ffp-contract=off', '-DF_CPU_HZ=16000000L', '-DF_CPU=16000000L']
# clang's AVR target passes classes with a destructor by value as raw bytes (so they are destroyed twice); avr-g++ passes
# them by reference as the C++ ABI asks.  Units that need it take this front end, which has the same integer types.
AVR16_FLAGS = ['--target=msp430', '-UMSP430', '-U__MSP430__', '-DAVR=1', '-D__AVR=1', '-D__AVR__=1', '-D__AVR_ARCH__=5',
               '-D__AVR_ATmega328P__=1', '-D__AVR_2_BYTE_PC__=1', '-D__AVR_HAVE_JMP_CALL__=1', '-D__AVR_HAVE_LPMX__=1',
               '-D__AVR_HAVE_MOVW__=1', '-D__AVR_HAVE_MUL__=1'] + AVR_FLAGS[2:]


def sh(cmd, timeout=300, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                          errors='replace', **kw)


class Unit:
    """one harness source file"""

    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-4]
        self.text = open(path).read()
        self.mode = 'real'
        self.target = 'host'
        self.frontend = 'own'
        self.bounds = []
        self.assumes = []
        self.flags = []
        self.opts = {}
        self.fns = {}
        self.split()

    def split(self):
        lines = self.text.split('\n')
        pre = []
        cur = None
        tier = 'quick'
        opts = {}
        body = []
        for ln in lines:
            m = re.match(r'//\s*@(\w+)\s*(.*)', ln)
            if m and cur is None:
                k, v = m.group(1), m.group(2).strip()
                if k == 'mode':
                    self.mode = v
                elif k == 'target':
                    self.target = v
                elif k == 'frontend':
                    self.frontend = v
                elif k == 'bound':
                    self.bounds.append(v)
                elif k == 'assume':
                    self.assumes.append(v)
                elif k == 'flags':
                    self.flags += v.split()
                elif k == 'tier':
                    tier = v
                elif k == 'opt':
                    for x in v.split():
                        a, b = x.split('=')
                        (opts if self.fns or tier != 'quick' else self.opts)[a] = int(b) if b.lstrip('-').isdigit() else b
                elif k == 'fopt':
                    for x in v.split():
                        a, b = x.split('=')
                        opts[a] = int(b) if b.lstrip('-').isdigit() else b
                pre.append('')
                continue
            m = re.match(r'VP_HARNESS\(\s*(\w+)\s*\)', ln)
            if m:
                cur = m.group(1)
                body = []
            if cur is None:
                pre.append(ln)
            else:
                body.append(ln)
                if ln.rstrip() == '}' or (len(body) == 1 and ln.rstrip().endswith('}')):
                    self.fns[cur] = dict(body='\n'.join(body), tier=tier, opts=opts, line=len(pre))
                    pre += [''] * len(body)
                    cur = None
                    tier = 'quick'
                    opts = {}
        self.pre = '\n'.join(pre)

    def source(self, names):
        return self.pre + '\n' + '\n'.join(self.fns[n]['body'] for n in names) + '\n'


def compile_ll(unit, names, dst, work):
    src = os.path.join(work, dst + '.cpp')
    with open(src, 'w') as fh:
        fh.write(unit.source(names))
    ll = os.path.join(work, dst + '.ll')
    flags = HOST_FLAGS
    if unit.target == 'avr':
        flags = AVR16_FLAGS if unit.frontend == 'generic' else AVR_FLAGS
    r = sh(['clang++-18', '-S', '-emit-llvm', '-O0', '-Wno-c++11-narrowing', '-Xclang', '-disable-O0-optnone'] + flags + unit.flags +
           [src, '-o', ll])
    return (ll if r.returncode == 0 else None), src, r.stdout


def compile_native(unit, names, dst, work, cc='g++'):
    src = os.path.join(work, dst + '.cpp')
    if not os.path.exists(src):
        with open(src, 'w') as fh:
            fh.write(unit.source(names))
    exe = os.path.join(work, dst + '.' + cc + '.exe')
    if os.path.exists(exe):
        return exe, ''
    flags = list(HOST_FLAGS)
    if cc == 'clang++-18':
        flags += ['-Wno-c++11-narrowing', '-ftrivial-auto-var-init=pattern', '-fsanitize=undefined', '-fno-sanitize=vptr,signed-integer-overflow,'
                  'shift-base,float-cast-overflow,implicit-conversion,pointer-overflow', '-fno-sanitize-recover=all']
    else:
        flags += ['-fsanitize=address,integer-divide-by-zero,bounds,null,unreachable,shift-exponent',
                  '-fno-sanitize-recover=all']
    r = sh([cc] + flags + unit.flags + ['-O0', '-g0', '-rdynamic', src, HERE + '/harness/vp_native.cpp', '-o', exe, '-ldl'])
    if r.returncode != 0:
        return None, r.stdout
    return exe, r.stdout


def run_native(exe, fn, inputs, work, tag, timeout=20, earlier=None):
    p = os.path.join(work, 'in_%s.txt' % tag)
    with open(p, 'w') as fh:
        for k, v in inputs.items():
            fh.write('%s %s\n' % (k, v))
        for k, v in (earlier or {}).items():
            fh.write('earlier:%s %s\n' % (k, v))
        if earlier is not None:
            fh.write('earlier 1\n')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0')
    try:
        r = sh([exe, fn, p], timeout=timeout, env=env, cwd=work)
    except subprocess.TimeoutExpired:
        return 'hang', 'no termination within %d s' % timeout
    out = r.stdout[-2000:]
    if r.returncode == 0:
        return 'ok', out
    if r.returncode == 4:
        return 'assume', out
    if r.returncode == 3:
        return 'fail', out
    if r.returncode == 2 and 'no harness' in out:
        return 'error', out
    return 'crash', out + '\nexit status %d' % r.returncode


def explore(args):
    """worker: symbolic run of one harness function"""
    path, fn, ll, opts, mode, deadline, seed = args
    t0 = time.time()
    res = dict(fn=fn, unit=path, cands=[], error=None)
    try:
        sys.setrecursionlimit(20000)
        import llir
        import poly
        import sym
        import intrinsics
        import random
        intrinsics._rng = random.Random(seed)
        poly.reset()
        sym._varcache.clear()
        mod = llir.Module(open(ll).read())
        o = dict(mode=mode, seed=seed, deadline=min(deadline, time.time() + HARNESS_S))
        o.update(opts)
        E = sym.Engine(mod, o)
        wit = []

        def on_complete():
            if len(wit) >= o.get('witness', 2) or mode == 'none' or E.history is not None:
                return
            if o.get('witness', 2) > 1 and E.stats.completed not in (1, 2, 5, 17):
                return
            m = E.sample(z3_true(), 4) if E.real else None
            if m is None:
                m = E.model_for([z3_true()], 5000)
            if m in (None, 'unknown'):
                return
            wit.append({n: intrinsics.value_str(i, m.get(i['z'])) for n, i in E.inputs_on_path.items()})
        E.on_complete = on_complete
        E.wit = wit
        try:
            E.run(fn)
        except sym.EngineError as e:
            res['error'] = str(e) + ' [' + E.where()[:300] + ']'
        s = E.stats
        res.update(cands=E.cands, witnesses=wit, paths=s.paths, completed=s.completed, steps=s.steps,
                   queries=s.queries, feas=s.feas, solver_s=round(s.solver_s, 3), discharged=s.discharged,
                   trivial=s.trivial, norm=s.norm, unknown=s.unknown, cvc5=s.cvc5, sites=s.sites,
                   funcs=sorted(s.funcs), rounded=getattr(s, 'rounded', False))
    except Exception as e:
        res['error'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    res['wall'] = round(time.time() - t0, 2)
    return res


def worker(task, out):
    def body():
        if os.environ.get('VP_STACKS'):
            import faulthandler
            faulthandler.dump_traceback_later(int(os.environ['VP_STACKS']), repeat=True, exit=False)
        r = explore(task)
        with open(out + '.tmp', 'wb') as fh:
            pickle.dump(r, fh)
        os.rename(out + '.tmp', out)
    threading.stack_size(1 << 29)           # deep terms
    t = threading.Thread(target=body)
    t.start()
    t.join()


def schedule(tasks, work, enough):
    """one process per harness, JOBS at a time, ended when it overruns"""
    ctx = multiprocessing.get_context('fork')
    todo = tasks            # may grow while running
    running = []
    k = 0
    while todo or running:
        if enough and time.time() > enough[0]:
            for p, t, out, t0 in running:
                p.kill()
                p.join()
            return
        while todo and len(running) < JOBS:
            t = todo.pop(0)
            k += 1
            out = os.path.join(work, 'result%d.pickle' % k)
            p = ctx.Process(target=worker, args=(t, out))
            p.start()
            running.append((p, t, out, time.time()))
        time.sleep(0.02)
        for x in list(running):
            p, t, out, t0 = x
            fail = None
            if not p.is_alive():
                p.join()
                if os.path.exists(out):
                    with open(out, 'rb') as fh:
                        yield pickle.load(fh)
                else:
                    fail = 'worker ended without a result (exit %s)' % p.exitcode
            elif time.time() > min(t[5], t0 + HARNESS_S) + 60:
                p.kill()
                p.join()
                fail = 'time budget exceeded'
            else:
                continue
            running.remove(x)
            if fail:
                yield dict(fn=t[1], unit=t[0], cands=[], error=fail, wall=round(time.time() - t0, 2))


def z3_true():
    import z3
    return z3.BoolVal(True)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) harness=(\S+) check="([^"]*)" (.*)', ln)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out


def demangle(names):
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True, timeout=30)
        return r.stdout.split('\n')
    except Exception:
        return list(names)


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    prop = a[0]
    only = None
    if '--only' in sys.argv:
        only = sys.argv[sys.argv.index('--only') + 1]
        a = [x for x in a if x != only]
    verbose = '-v' in sys.argv
    t0 = time.time()
    deadline = t0 + BUDGET
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    try:
        return run(prop, only, verbose, t0, deadline, work)
    finally:
        if '--keep' in sys.argv:
            print('work directory', work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def run(prop, only, verbose, t0, deadline, work):
    units = [Unit(p) for p in sorted(glob.glob(os.path.join(HERE, 'harness', prop + '_*.cpp')) +
                                     glob.glob(os.path.join(HERE, 'harness', prop + '.cpp')))]
    if not units:
        print('no harness for', prop)
        return 2
    violations = []        # (unit, fn, msg, replay data)
    errors = []
    tasks = []
    lls = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        comp = []
        for u in units:
            names = [n for n, f in u.fns.items() if (f['tier'] == 'quick' or TIER == 'thorough') and
                     (only is None or n == only)]
            if not names:
                continue
            u.active = names
            comp.append((u, names, ex.submit(compile_ll, u, names, u.name, work)))
        units = [u for u, _, _ in comp]
        for u, names, fut in comp:
            ll, src, log = fut.result()
            if ll:
                for n in names:
                    lls[(u.name, n)] = (ll, u.name)
                continue
            subs = [(n, ex.submit(compile_ll, u, [n], u.name + '.' + n, work)) for n in names]
            for n, f2 in subs:
                ll2, src2, log2 = f2.result()
                if ll2:
                    lls[(u.name, n)] = (ll2, u.name + '.' + n)
                    continue
                if u.target == 'avr':
                    r = sh(['avr-g++', '-mmcu=atmega328p', '-O1', '-fsyntax-only', '-std=gnu++17', '-w',
                            '-I' + REPO + '/include', '-I' + HERE + '/harness', '-fno-exceptions',
                            '-DF_CPU_HZ=16000000L', '-DF_CPU=16000000L'] + u.flags + [src2])
                else:
                    r = sh(['g++', '-fsyntax-only'] + HOST_FLAGS + u.flags + [src2])
                if r.returncode == 0:
                    errors.append('%s: clang rejects what the compiler of the project accepts: %s' % (n, log2[:400]))
                else:
                    violations.append((u, n, 'a program using the documented interface no longer compiles',
                                       dict(kind='compile', inputs={}, output=r.stdout[:3000], status='compile')))
    for u in units:
        for n in u.active:
            if (u.name, n) in lls:
                o = dict(u.opts)
                o.update(u.fns[n]['opts'])
                tasks.append((u.path, n, lls[(u.name, n)][0], o, o.pop('mode', u.mode), deadline, SEED))
    byname = {u.path: u for u in units}
    results = []
    nat = {}
    builds = []
    for u in units:
        if u.target == 'host':
            for dst in sorted(set(d for (un, n), (l, d) in lls.items() if un == u.name)):
                p = multiprocessing.get_context('fork').Process(target=compile_native, args=(u, u.active, dst, work))
                p.start()
                builds.append((p, u, dst))
    enough = []            # a violation is confirmed: the other harnesses get a little longer
    known = known_findings(prop)
    replayed = {}
    again = {t[1]: t for t in tasks}
    for r in schedule(tasks, work, enough):
        results.append(r)
        rounding = r.get('rounded') and again.pop(r['fn'], None)
        if (r['cands'] and not enough) or (rounding and (r['cands'] or r['error'])):
            u = byname[r['unit']]
            dst = lls[(u.name, r['fn'])][1]
            if u.target == 'host' and (u.name, dst) not in nat:
                for p, bu, bd in builds:
                    if (bu.name, bd) == (u.name, dst):
                        p.join()
                nat[(u.name, dst)] = compile_native(u, u.active, dst, work)
            replayer = Replayer(u, r['fn'], dst, nat.get((u.name, dst)), work)
            for i, c in enumerate(r['cands'][:3]):
                if any(k[0] == r['fn'] and k[1] == c['msg'] for k in known):
                    continue
                replayed[(r['fn'], i)] = replayer.replay(c, '%s_%d' % (r['fn'], i))
                if replayed[(r['fn'], i)][0] in ('fail', 'crash', 'hang'):
                    enough.append(time.time() + 20)
                    break
            else:
                if rounding:
                    # rounding to float somewhere, without effect on the outcome: decided again without that rounding
                    for i in range(len(r['cands'])):
                        replayed.pop((r['fn'], i), None)
                    results.pop()
                    t = rounding
                    tasks.append(t[:3] + (dict(t[3], f32='exact'),) + t[4:])
                    continue
        if verbose:
            print('  %-28s paths %d/%d queries %d+%d solver %.1fs wall %.1fs cands %d %s' % (
                r['fn'], r.get('completed', 0), r.get('paths', 0), r.get('queries', 0), r.get('feas', 0),
                r.get('solver_s', 0), r['wall'], len(r['cands']), r['error'] or ''))
            sys.stdout.flush()
    for p, u, dst in builds:
        p.join()
        if (u.name, dst) not in nat:
            nat[(u.name, dst)] = compile_native(u, u.active, dst, work)
    validated = 0
    tried = 0
    unconfirmed = []
    for r in sorted(results, key=lambda r: r['fn']):
        u = byname[r['unit']]
        fn = r['fn']
        dst = lls[(u.name, fn)][1]
        replayer = Replayer(u, fn, dst, nat.get((u.name, dst)), work)
        if r['error']:
            errors.append('%s: %s' % (fn, r['error']))
        hit = set()
        for i, c in enumerate(r['cands']):
            if c['msg'] in hit:
                continue
            st, out = replayed.get((fn, i)) or replayer.replay(c, '%s_%d' % (fn, i))
            if st in ('ok', 'assume') and not violations and tried < 4:
                tried += 1
                st, out = replayer.nearby(c, '%s_%d' % (fn, i)) or (st, out)
            if st in ('fail', 'crash', 'hang'):
                hit.add(c['msg'])
                violations.append((u, fn, c['msg'], dict(c, status=st, output=out)))
            elif st == 'error':
                errors.append('%s: replay: %s' % (fn, out[:500]))
            else:
                unconfirmed.append((fn, c['msg'], c, st))
        unconfirmed = [x for x in unconfirmed if not (x[0] == fn and x[1] in hit)]
        # vacuity: every check in the harness text was executed on some path, and some path reached the end
        if not r['error'] and not r['cands']:
            if not r.get('completed'):
                errors.append('%s: vacuous, no path reaches the end' % fn)
            want = set(re.findall(r'vp_(?:check|eq|le)\((?:[^;"]|"[^"]*"(?=\s*\)\s*,))*?"([^"]*)"\s*\)\s*;',
                                  u.fns[fn]['body']))
            have = set(k.split(':', 1)[1] for k in r['sites'])
            for w in want - have:
                errors.append('%s: vacuous, check never reached: %s' % (fn, w))
            for i, w in enumerate(r['witnesses']):
                st, out = replayer.replay(dict(inputs=w, kind='witness'), '%s_w%d' % (fn, i))
                if st == 'ok':
                    validated += 1
                elif st == 'assume':
                    pass
                elif st in ('none',):
                    pass
                else:
                    errors.append('%s: engine and real code disagree on %s: %s %s' % (fn, w, st, out[-400:]))
    # vacuity, per source file: every check message was reached by some harness
    for u in units:
        rs = [r for r in results if r['unit'] == u.path]
        if only is None and not any(r['error'] or r['cands'] for r in rs) and len(rs) == len(u.active):
            have = set(k.split(':', 1)[1] for r in rs for k in r['sites'])
            for w in set(re.findall(r',\s*"([^"]*)"\s*\)\s*;', u.text)) - have:
                if not any(w in f['body'] for f in u.fns.values() if f['tier'] != 'quick'):
                    errors.append('%s: vacuous, check never reached: %s' % (u.name, w))
    for fn, msg, c, st in unconfirmed:
        errors.append('%s: counterexample for "%s" does not reproduce (%s): %s' % (fn, msg, st, c['inputs']))
    status = 0
    printed = set()
    nviol = 0
    for u, fn, msg, d in violations:
        k = [x for x in known if x[0] == fn and x[1] == msg]
        if k:
            if k[0] not in printed:
                printed.add(k[0])
                print('KNOWN-FINDING: property=%s %s' % (prop, k[0][2]))
            continue
        nviol += 1
        rp = os.path.join(OUT, 'replay_%s_%s_%d.json' % (prop, fn, nviol))
        json.dump(dict(property=prop, harness=fn, unit=u.path, check=msg, kind=d.get('kind'), where=d.get('where'),
                       inputs=d['inputs'], earlier=d.get('earlier'), observed=d['status'], output=d['output'],
                       rerun='python3-vt /verif/replay.py ' + rp), open(rp, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        print('  %s: %s [%s] inputs %s%s' % (fn, msg, d['status'], json.dumps(d['inputs'])[:600],
                                         ' after an earlier run with %s' % json.dumps(d['earlier'])[:400] if d.get('earlier') else ''))
        status = 1
    for e in errors:
        print('ERROR ' + e)
    if status == 0 and errors:
        status = 2
    funcs = set()
    for r in results:
        funcs |= set(r.get('funcs', []))
    dm = [x for x in demangle(sorted(funcs)) if re.search(r'\b(num|dsp|mcu|core|std20|time)::', x)]
    tot = lambda k: sum(r.get(k, 0) for r in results)
    ev = dict(
        property=prop, tier=TIER, seed=SEED, level='model_checking',
        coverage=dict(
            states=tot('paths'), transitions=tot('steps'), traces_validated_against_impl=validated,
            samples=[dict(harness=r['fn'], witness=w) for r in results for w in r.get('witnesses', [])[:1]][:12] or
                    [dict(harness=r['fn']) for r in results][:3],
            exhaustive=(status == 0),
            explanation='states = execution paths of the real code explored symbolically (each stands for all inputs '
                        'taking it); transitions = LLVM instructions executed symbolically; traces validated = inputs '
                        'chosen by the solver, run through the natively compiled code with the same outcome',
            paths_completed=tot('completed'), assertion_queries=tot('queries'), feasibility_queries=tot('feas'),
            discharged_by_solver=tot('discharged'), discharged_by_normal_form=tot('norm'),
            discharged_by_simplification=tot('trivial'), solver_s=round(tot('solver_s'), 2), cvc5_fallbacks=tot('cvc5'),
            harnesses={r['fn']: dict(paths=r.get('paths'), completed=r.get('completed'), queries=r.get('queries'),
                                     solver_s=r.get('solver_s'), wall_s=r['wall'],
                                     assertion_sites=len(r.get('sites', {}))) for r in results},
            bounds=sum((u.bounds for u in units), []),
            functions_encoded=dm[:400], functions_encoded_count=len(dm)),
        assumptions=sum((u.assumes for u in units), []) or ['none beyond the bounds'],
        wall_s=round(time.time() - t0, 2), violations=nviol)
    if nviol == 0 and not errors or status == 1 or True:
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d harnesses, %d paths, %d assertion queries, %.1f s solver, %d traces validated, %.1f s -> %s' % (
        prop, len(results), tot('paths'), tot('queries'), tot('solver_s'), validated, time.time() - t0,
        {0: 'held', 1: 'VIOLATED', 2: 'NO ANSWER'}[status]))
    return status


class Replayer:
    def __init__(self, u, fn, dst, nat, work):
        self.u, self.fn, self.dst, self.nat, self.work = u, fn, dst, nat, work

    def replay(self, c, tag):
        u = self.u
        if u.target == 'avr':
            import avr_replay
            return avr_replay.replay(u, self.fn, self.dst, c, self.work, tag)
        exe, log = self.nat
        if exe is None:
            return 'error', 'native build failed: ' + log[-1500:]
        to = 20 if c['kind'] == 'nonterm' else 60
        if c.get('rounded'):
            # the solver's inputs may be numbers that float represents exactly: also inputs next to them, judged strictly
            rng = random.Random(SEED)
            for k in range(40):
                inp = dict(c['inputs'], tight=1)
                for n in c['reals']:
                    if k and re.match(r'[-+0-9.e]+$', inp[n]):
                        v = float(inp[n])
                        u = rng.uniform(-1, 1) * (0.2 if k % 2 else 1e-3)
                        inp[n] = repr(v * (1 + u) if v else u)
                st, out = run_native(exe, self.fn, inp, self.work, tag, to, c.get('earlier'))
                if st in ('fail', 'crash', 'hang'):
                    inp.pop('tight')
                    c['inputs'] = inp
                    return st, out
            c['inputs'].pop('tight', None)
        st, out = run_native(exe, self.fn, c['inputs'], self.work, tag, to, c.get('earlier'))
        if st in ('ok',) and c['kind'] in ('uninit', 'memory'):
            exe2, log2 = compile_native(u, u.active, self.dst, self.work, 'clang++-18')
            if exe2:
                st, out = run_native(exe2, self.fn, c['inputs'], self.work, tag, to, c.get('earlier'))
        return st, out

    def nearby(self, c, tag):
        """a counterexample of the solver whose values do not reproduce it (of a library function it has only the value's
        properties: it may choose a value that the real function does not take there): try inputs around it"""
        names = [n for n in c.get('near') or () if re.match(r'[-+0-9.e]+$', str(c['inputs'].get(n, '')))]
        if self.u.target == 'avr' or not names or self.nat[0] is None:
            return None
        rng = random.Random(SEED)
        t = time.time() + 30
        for k in range(400):
            inp = dict(c['inputs'])
            for n in names:
                v = float(inp[n])
                m = rng.randrange(6)
                if m == 1:
                    v *= 1 + rng.uniform(-0.2, 0.2)
                elif m == 2:
                    v = 1 + rng.uniform(-0.2, 0.2)
                elif m == 3:
                    v = rng.randint(1, 15) / 16
                elif m == 4:
                    v = 10 ** rng.uniform(-1, 1)
                elif m == 5:
                    v = -v
                inp[n] = repr(v)
            st, out = run_native(self.nat[0], self.fn, inp, self.work, tag, 20, c.get('earlier'))
            if st == 'fail' and ('VPFAIL ' + c['msg'] + '\n') in out + '\n':
                c['inputs'] = inp
                return st, out
            if time.time() > t:
                return None
        return None


if __name__ == '__main__':
    sys.exit(main())
