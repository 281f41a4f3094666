#!/opt/veriftools/pyvenv/bin/python3
"""Run a recorded counterexample against the code in /repo as it is now.

usage: replay.py out/replay_X.json ; exit 1 if it still fails, 0 if not
"""
import json
import os
import shutil
import sys
import tempfile
import check

r = json.load(open(sys.argv[1]))
u = check.Unit(r['unit'])
u.active = [r['harness']]
work = tempfile.mkdtemp(prefix='vp_replay_')
try:
    if r['kind'] == 'compile':
        ll, src, log = check.compile_ll(u, u.active, 'replay', work)
        print(log[:3000])
        sys.exit(0 if ll else 1)
    nat = None
    if u.target == 'host':
        nat = check.compile_native(u, u.active, 'replay', work)
    else:
        check.compile_ll(u, u.active, 'replay', work)
    st, out = check.Replayer(u, r['harness'], 'replay', nat, work).replay(r, 'replay')
    print(out)
    print('%s: "%s" with %s: %s' % (r['harness'], r['check'], r['inputs'], st))
    sys.exit(1 if st in ('fail', 'crash', 'hang') else 0)
finally:
    shutil.rmtree(work, ignore_errors=True)
