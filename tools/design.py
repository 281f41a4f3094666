import json,glob,os,re
head = r'''# Solver-based checking of kalman-estimator

Every property is decided by symbolic execution of the real code: a small harness in `harness/` calls the library's public
interface with symbolic inputs, clang turns harness and library headers into LLVM IR **on every run, from /repo's working
tree**, an executor written for this purpose runs that IR with symbolic values, and an SMT solver decides every branch and
every assertion for all inputs within the stated bounds.  A counterexample is replayed against the code compiled natively
(g++ for the host, avr-g++ machine code in an instruction-level emulator for the microcontroller) and only a reproduced one
is reported as a violation; one that does not reproduce makes the check give no answer (exit 2), never a verdict.

    check.py PROPERTY            decide one property (quick tier; VERIF_TIER=thorough for the deep one)
    replay.py FILE               replay a reported counterexample against the code in /repo
    tools/all.sh                 all checks, one after another (about 4 minutes)
    tools/props.py               regenerates properties.jsonl and MANIFEST.json

## 1. How a verdict comes about

1. **Encoding.** `check.py` splits `harness/<ID>_*.cpp` into its `VP_HARNESS` blocks, compiles them with `clang++-18 -O0
   -emit-llvm` (so no optimiser assumption hides undefined behaviour), and parses the IR (`engine/llir.py`).
   If clang and g++ both reject a harness that compiles on the original tree, the public interface was broken; that is
   reported as a violation.  Harnesses use the public interface only, so refactorings do not get there.
2. **Execution** (`engine/sym.py`).  Path by path, by re-execution along decision prefixes.  Memory is a set of typed-free
   byte objects with concrete addresses, so out-of-bounds, use of uninitialised values, division by zero, over-wide shifts,
   signed overflow where undefined, invalid conversions float -> int and null dereferences are candidates of their own.
   Branch conditions are sent to the solver; both sides are explored when feasible.  Paths are not merged; harnesses keep
   their number down by taking one case per path (`vp_cases`, `vp_choose`).
3. **Numbers.**  Three modes, chosen per harness file (`@mode`):
   * `int`: bit-vectors, exactly as the machine computes.  Used for fixed-point (F*, X01, X02), ranges, registers.  With `@opt intpoly=1` comparisons are first tried on the exact
     integer polynomials the terms stand for (bounds from the declared input ranges), which decides nonlinear identities that bit-blasting cannot.
   * `ieee`: bit-exact binary32/binary64 in z3's floating-point theory (F04, X01 float).
   * `real`: floating-point values are exact reals, held as rational functions in normal form (`engine/poly.py`) over the
     inputs and over generators for sqrt, exp, log, sin, cos, atan, cosh, asinh, ... with defining facts (`intrinsics.py`).
     Identities such as sin^2+cos^2=1, tan=sin/cos, cosh(n acosh x), log/exp/pow inversions, logs to different bases are
     built into the normal form, so a formula written otherwise denotes the same value.  The solver (z3 nlsat, then cvc5)
     decides the assertion over the normal form and the facts; `engine/signs.py` discharges sign conditions of polynomials
     whose variables have lower bounds by shifting to the bounds (a certificate, no sampling).
     Narrowing a double to float is **not** exact: it yields a fresh value within the relative rounding bound, so that code
     which loses double precision breaks equalities (seeds K01-float-gain, H01-float-ripple, D02-float-prewarp).
4. **Deciding.**  Per assertion: negation + path condition must be unsatisfiable.  `evidence` counts queries discharged by
   solver, by normal form and by simplification.  If the solver gives no verdict the check exits 2.
5. **Vacuity.**  Every check message in a harness must be reached on some path, some path must reach the end, and for every
   harness a solver-chosen input of a complete path is run through the natively compiled code, which must agree
   ("traces validated": the executor and the compiler agree on it).
6. **State of the library's own.**  If the code under test keeps static variables of its own that it changes, the exploration
   is repeated from the states that earlier uses of the library with particular inputs leave (history mechanism; seed
   K01-static-transpose), since "every history" includes those.
7. **Replay.**  Host: g++ -O1/-O2 with the inputs from a file; comparison within rounding.  Microcontroller: avr-g++ -Os and -O1,
   emulated at instruction level (`engine/avr_replay.py`), with interrupts injected at every instruction boundary where the
   property speaks of interrupts.

### Microcontroller units
`// @target avr` compiles the headers for the ATmega328 (`--target=avr`).  The register file (`engine/mcu.py`) is one symbolic
byte per data-space address; volatile accesses are logged byte by byte.  `vp_io_live` makes a register change by itself;
`vp_isr` adds an interrupt handler that may run before each byte access of a shared object.  clang's AVR back end passes
classes with destructors by value bitwise and would destroy the lazy-write objects twice, unlike avr-g++; units that need it
take `// @frontend generic` (the msp430 front end, same integer model, AVR macros defined); the replay is always avr-g++.

### Trusted base
clang's front end; the executor, the normal form and the facts about transcendental functions; z3 and cvc5.  Guarded by the
witness replays, and by /verif/seeded (each seeded change but O01-narrow-step is caught with a reproduced counterexample).

### Idealisations, for the whole `real` mode
Doubles are exact reals; pi, ln 2, ln 10 as written (nearest doubles) stand for the exact constants.  Rounding error,
overflow to infinity and denormals are outside every claim in that mode; a division by an exactly zero value is a candidate.
What the claims are about is the formula the code computes, for every input, history and branch.

'''
how = {
'F01':('raw integers of both operands symbolic; the result compared with the exact sum/difference/negation in wider bit-vectors; comparisons against integer comparison of representations','the exact real-number result'),
'F02':('product compared with floor of the exact double-width product; commutation, one, zero as lemmas. Multiplications are encoded as exact integer polynomials (`ipoly`) where provably non-wrapping so that two differently written products compare without bit-blasting','floor(a*b)'),
'F03':('quotient q is decided through r = a - q*b: sign and magnitude of the remainder, over bit-vectors widened until nothing wraps','truncation of the exact quotient'),
'F04':('IEEE floating-point theory for double and float arguments; distance to nearest at most half a step, symmetry, monotonicity, round trip','nearest representable number'),
'F05':('representation, int conversion, `as<U>()` for every width, limits','integer arithmetic on the representation'),
'M01':('every shape, every element a symbol, every in-range index; reads through ( ), [ ], iterators; writes leave every other element; copies and moves do not alias','row-major layout'),
'M02':('every element compared with the element-wise expression; shape by type','element-wise arithmetic'),
'M03':('every element compared with the sum of products; associativity and distributivity as identities','matrix product'),
'M04':('transpose, double transpose, identity','definition'),
'M05':('polynomial identities over the determinant; singular input branch; fixed-point and integer elements over every bit pattern','adjugate / determinant'),
'K01':('one update from an arbitrary state with every matrix element a symbol, against textbook formulae expanded independently in the harness; composition through restart from the observed state','textbook Kalman equations'),
'K02':('P = L L\', Q = N N\' parameterise all covariances; principal minors of P\' and of P_pred - P\' non-negative','positive semidefiniteness'),
'K03':('observers called in every order chosen by the solver between updates; comparison with the run without observers','clock = n*dt'),
'K04':('the branch det = 0 is forced symbolically; fixed-point: every 16 bit measurement, noise','gain zero, prediction kept, no trap'),
'B01':('outputs of the three step functions as polynomials in coefficients and inputs','difference equation'),
'B02':('superposition, delay, reset, copy, swap as identities over symbolic history','linear time-invariance'),
'B03':('Vieta relations, both discriminant branches','roots of the polynomials'),
'B04':('stability answer versus Jury conditions and versus an arbitrary root, both directions','closed unit disc'),
'B05':('frequency enters as an arbitrary point of the unit circle','transfer function'),
'C01':('solver-chosen sequences of operations, against an array model in the harness; states compared by stepping afterwards','sequence container'),
'C02':('cascade against sections stepped one by one','series connection'),
'D01':('sin/cos of the design frequency as a point on the upper half circle, Q > 0, gain symbolic; poles strictly inside (Jury)','strict stability'),
'D02':('|H|^2 at every frequency against the bilinear transform of the analog prototype (rational identity)','analog prototype'),
'D03':('10^(g/40) a positive symbol A with A^4 the power gain; end gains; cut x boost = 1; dB conversions','requested gain'),
'D04':('filter output against the section of the design, interleaved with a second filter; settled values','the design'),
'O01':('as B01/B02/B04/B05 for the first order',''),
'O02':('pole magnitude exp(-pi f/fs), pass-band gain, integral and float arguments','stated design'),
'H01':('the order is what the code computes for a symbolic specification: minimality by cosh/acosh facts; |H|^2 against 1/(1+eps^2 T_n^2) at every frequency; section by section','Chebyshev type 1 response'),
'H02':('as H01 with the type 2 response','Chebyshev type 2 response'),
'H03':('designs with arbitrary coefficients and real designs; filter against the sections','product of sections'),
'R01':('first, last, step symbolic with up to 6 values, all integer types and mixtures; long runs of 300 for counters that are too narrow','arithmetic progression'),
'R02':('sizes symbolic up to 2^32 for the ends, 0..6 and 300 for the walk','positions'),
'S01':('AVR build of include/std/*: contents and lengths symbolic, buffer around the range checked untouched','C++ standard'),
'S02':('AVR build: limits against compiler builtins, traits by type, complex operations as written','what the compiler implements'),
'U01':('register content and value symbolic; every position and width; access log','bit positions'),
'U02':('one read and one write per combination; contents','bit positions'),
'U03':('policy by policy, bit by bit','bit positions, access kinds'),
'U04':('positions symbolic','shift arithmetic'),
'U05':('interrupt handler at any byte access (solver-chosen), old and new value symbolic','value existed at one moment; SREG'),
'U06':('every name against a table typed from the data sheet','ATmega328 data sheet'),
'U07':('set then current; code by table','data sheet'),
'U08':('bus status a symbolic byte per step; log of control writes','TWI protocol of the data sheet'),
'U09':('log of accesses','port map'),
'X01':('as F01-F05 for 16 bit int; counterexamples emulated as AVR machine code','as F01-F05'),
'X02':('values are bounded symbolic integers; bit-vector terms are read as exact integer polynomials with interval bounds that show that nothing wraps or is shifted out (`ipoly`, `@opt intpoly`), compared with the exact polynomial and confirmed by the solver over the integers; rounding: bit-vectors of an 8 bit format','the exact rational result; one unit per product'),
'T01':('streams are lists of tokens (texts, characters, integers, numbers); the tokens the operator writes are compared with the expected ones, numbers by the solver','the layout as documented by the operators; contents through the accessors'),
'T02':('the real std::string code is encoded (its templates instantiated in the unit), characters symbolic','search and replace written out in the harness'),
}
tail = r'''
## 4. Limits, stated

* `real` mode ignores rounding (see idealisations).  "Loss of symmetry through rounding" for Kalman covariances is outside K02.
* Kalman filters exist for two states and one or two measurements (the library's inversion covers 1x1 and 2x2); K01-K04 cover
  exactly those, any number of controls.
* `1x1 + 1x1` and `transposed(1x1)` are ambiguous calls in the library; one-pole's constructor from zero/pole/gain does not
  compile when instantiated; `chebyshev2_bs` is not implemented.  None is claimed.
* An initializer list longer than the matrix, insertion at the end of a cascade (append does that), a zero or negative range step
  are outside the documented preconditions and outside the claims.
* One-pole designs put the pole at exp(-pi f/fs) (as the code and its comments state), not at exp(-2 pi f/fs); O02 decides the
  former.
* The clear of a write-one-to-clear flag is a read-modify-write in the source: other pending flags of the same register are written
  as one too (avr-gcc emits SBI for low addresses, which does not).  U03 decides "a one to that flag, control bits kept".
* `scoped_interrupt_guard` always enables interrupts at its end; interrupts on at entry is assumed (documented in the code).
* General purpose registers and the stack pointer are decided by reading only (U06); flags of SREG one at a time.
* The two-wire code waits for ever on a bus that never answers; U08 lets each step end within 3 polls.
  The unused duplicate `twi::detail_x` is not covered.
* eeprom data/address settings are called with their namespace (not found by argument-dependent lookup).
* AVR `std::complex` declares but does not define some arithmetic; S02 decides what exists.
* X01 leaves 32-bit quotients to F03 (same template, host): solver-hard with 16-bit int promotions.
* H03 decides the *reported* stability of real designs to order 3.
* T01 takes the number formatting of the standard library as given (precompiled): output is compared as tokens; manipulators other than endl and flush are not modelled (no answer).

## 5. False alarms met, and what was corrected

* Claims too strong at first, corrected in the property: float -> fixed conversion is within half a step plus the rounding of the
  float addition (F04); negative decibels convert to the factor of their absolute value as the code documents (D03); overlap
  rules of `copy` (S01).
* **Refactoring experiments** (behaviour-preserving rewrites of num, dsp, core, std and mcu headers, done to see whether the checks stay
  quiet).  First round alarms or no-answers, all corrected in the machinery:
  - logarithms to another base, pow(10,x) as exp(x ln 10), tan as sin/cos, sqrt forms, cosh(n acosh x) by recurrence: the generators
    are now unified (`intrinsics.py`), constants ln 2 and ln 10 recognised;
  - rational functions grew without cancelling: `Rat.div` cancels denominators first;
  - `toggle` with a branch on the bit: path explosion in U03/U09, where one path ran every bit.  Harnesses now take one case per path
    (`vp_cases`), so the numbers of paths of the cases add up instead of multiplying;
  - AVR images above 64 kB: the start-up code cannot copy their initial data, names of inputs were garbage in the replay and
    counterexamples did not reproduce; the data are now taken from the file.
'''
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
out=[head]
out.append('## 2. Properties\n')
out.append('Levels are `model_checking`: all paths, all input values, within the bounds.  Seconds are for the quick tier on 8 cores.\n')
times={}
for l in open('/verif/tools/times.txt'):
    w=l.split(); times[w[0]]=(w[2],l[l.index(':')+1:].strip())
for p in P:
    i=p['id']
    fs=sorted(os.path.basename(f) for f in glob.glob('/verif/harness/%s_*.cpp'%i))
    out.append('### %s  %s\n'%(i,p['title']))
    out.append(p['statement']+'\n')
    if not fs or i not in times:
        out.append('*Not claimed*: the reason is in MANIFEST.json.\n'); continue
    b=[];a=[];m=[]
    for f in fs:
        for l in open('/verif/harness/'+f):
            if l.startswith('// @bound'): b.append(l[9:].strip())
            if l.startswith('// @assume'): a.append(l[10:].strip())
            if l.startswith('// @mode'): m.append(l[8:].strip())
    h=how[i]
    out.append('- How: '+h[0]+'.'+(' Oracle: '+h[1]+'.' if h[1] else ''))
    out.append('- Mode: %s; harness: %s; cost: %s.'%(', '.join(sorted(set(m))),', '.join('`%s`'%f for f in fs),times[i][0]))
    out.append('- Bounds: '+' / '.join(b))
    a=[x for x in a if x!='none']
    if a: out.append('- Assumptions: '+'; '.join(a))
    out.append('')
out.append('## 3. Planted bugs\n')
out.append('Each was written from the property text, confirmed to build, to pass the 128 tests and to fail its demonstration; all but one (O01-narrow-step, see below) are caught by the check of their property.\n')
out.append('| seed | property | breaks | needs |\n|---|---|---|---|')
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); out.append('| %s | %s | %s | %s |'%(f.split('/')[-2],m['property'],m['what_it_breaks'].replace('|','/'),m['needs'].replace('|','/')))
out.append(open('/verif/tools/missed.md').read() if os.path.exists('/verif/tools/missed.md') else '')
out.append(tail)
out.append('## 6. Defects found in the code\n')
out.append('Repaired (`fix:` commits in /repo) or recorded; the list the checks read is KNOWN_FINDINGS.txt.\n')
for l in open('/verif/KNOWN_FINDINGS.txt'):
    if l.startswith(('fixed:','known:')): out.append('* '+l.strip())
open('/verif/DESIGN.md','w').write('\n'.join(out)+'\n')
