#!/usr/bin/env python3
"""The table of properties; writes properties.jsonl and MANIFEST.json (claimed = a harness exists)."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, note=note, na=na))

FP = 'include/num/fixed-point.hpp'
MX = 'include/num/matrix.hpp'
KF = 'include/dsp/kalman.hpp'
BQ = 'include/dsp/biquad.hpp'
BC = 'include/dsp/biquad-cascade.hpp'
BD = 'include/dsp/biquad-design.hpp'
OP = 'include/dsp/onepole.hpp'
OD = 'include/dsp/onepole-design.hpp'
CD = 'include/dsp/chebyshev-design.hpp'
REG = 'include/mcu/register.hpp'
ATM = 'include/mcu/atmega328.hpp'
RG = 'include/core/range.hpp'
real = 'Double elements are exact reals, so rounding is not covered. '
bits = 'Bit-precise (LLVM semantics of the compiled code, wrap-around included). '

prop('F01', 'Fixed-point addition, subtraction, negation and ordering are exact',
     'Adding, subtracting or negating fixed-point numbers gives exactly the real-number result whenever that result is representable, the compound forms agree with the binary ones, and operands are left unchanged. Comparison orders fixed-point numbers exactly as the real numbers they stand for.',
     ['inputs', 'configurations'], 'every pair of values, for 8, 16 and 32 bit underlying types and many splits between integer and fractional bits',
     'The tests sample a dozen values of two formats; the claim is over 2^16 to 2^64 pairs and some twenty formats.',
     [FP], ['operators on fixed_point in terms of the underlying integer'], note=bits)
prop('F02', 'Fixed-point multiplication is the exact product rounded down to the grid',
     'The product of two fixed-point numbers is the exact real product rounded toward minus infinity to the nearest representable step, whenever that fits the format. It commutes, and multiplying by one or zero is exact.',
     ['inputs', 'configurations'], 'every pair of values, for every 8 and 16 bit format and many 32 bit ones',
     'The tests multiply a handful of small numbers; a lost bit in the double-width product, or a wrong shift for one format, shows only for particular operands.',
     [FP], ['widened product and shift in operator*='], note=bits)
prop('F03', 'Fixed-point division is the exact quotient truncated to the grid',
     'The quotient of two fixed-point numbers is the exact real quotient truncated toward zero to a representable step, whenever that fits the format and the divisor is not zero. A number divided by itself is one and divided by one is itself.',
     ['inputs', 'configurations'], 'every pair of values with a non-zero divisor, for every 8 bit format and many 16 and 32 bit ones',
     'The tests divide a few small numbers; widening or sign errors show only for particular operands and formats.',
     [FP], ['widened dividend and division in operator/='], note=bits)
prop('F04', 'Conversion between fixed-point and real numbers rounds to nearest',
     'Converting an in-range real number to fixed point gives a representable number no further away than half a step, symmetrically for positive and negative numbers and preserving order. Converting a fixed-point number to a real number is exact and converting it back gives the same fixed-point number.',
     ['inputs', 'configurations'], 'every finite double and float in range, bit-exact IEEE arithmetic, for every 8 bit format and many 16 and 32 bit ones',
     'There are 2^64 doubles; the tests convert a few.  Ties, negative numbers and the ends of the range need all of them.',
     [FP], ['rounding in the constructors from real numbers', 'as<double>, conversion operators'],
     note='Bit-exact IEEE-754 encoding in the solver\'s floating-point theory. ')
prop('F05', 'Fixed-point representation, integer conversion and limits are faithful',
     'A fixed-point number built from a representation reads back that representation, an integer that fits converts exactly and back, and reading a fixed-point number as an integer truncates it toward zero whatever the width of the integer. The reported minimum, maximum and digit counts are the real extremes of the format.',
     ['inputs', 'configurations'], 'every representable value of each format and every integer that fits',
     'The tests look at one or two values per conversion; truncation of wide values to narrow integers shows only for others.',
     [FP], ['to_rep, from_rep, as, numeric limits'], note=bits)

prop('M01', 'Matrix element access is row-major, isolated and consistent',
     'Constructing a matrix from a list, or a value, and reading it by row and column, by linear index, or by iteration all agree on the row-major layout, with unlisted elements zero. Writing one element changes that element only, and copies, moves and assignments never alias.',
     ['inputs', 'configurations'], 'every shape from 1x1 to 4x4, every element value, every index in range (index symbolic)',
     'Tests look at a few shapes with fixed contents; a stride mistake or alias shows for particular non-square shapes and indices.',
     [MX], ['index arithmetic, constructors, iterators'], note=real)
prop('M02', 'Element-wise matrix arithmetic acts on every element and only element-wise',
     'Adding or subtracting two matrices of one shape, or combining a matrix with a scalar in either order, gives the element-by-element result in every position and the same shape. A 1x1 matrix acts as its single element.',
     ['inputs', 'configurations'], 'every shape from 1x1 to 4x4, every element value, real and modular integer elements',
     'Tests use fixed small numbers on a few shapes.', [MX], ['operator+, -, * on matrices and scalars'], note=real)
prop('M03', 'Matrix multiplication is the mathematical product for all conforming shapes',
     'For every pair of conforming matrices each element of the product is the sum over the inner dimension of products, including row and column vectors and outer products. Hence multiplication is associative and distributes over addition.',
     ['inputs', 'configurations'], 'every conforming triple of dimensions up to 3 (4 thorough), every element value',
     'Tests multiply fixed matrices of a few shapes; errors for rectangular shapes went unnoticed.',
     [MX], ['product operators'], note=real)
prop('M04', 'Transposition and the identity matrix are correct',
     'Transposing exchanges rows and columns and transposing twice gives the original. The identity of each size has ones on the diagonal and zeros elsewhere, and multiplying by it changes nothing.',
     ['inputs', 'configurations'], '2x2 matrices, vectors of length 2 to 6, identities of size 1 to 6, every element value',
     'Tests use one fixed matrix.', [MX], ['transposed, identity_matrix'], note=real)
prop('M05', 'Matrix inversion is the mathematical inverse, and defined for singular input',
     'The inverse of an invertible 2x2 matrix or scalar times the original is the identity, inverting twice gives the original, and the inverse of a symmetric matrix is symmetric. Inverting a singular matrix or zero is reported as zero without trapping, for real, integer and fixed-point elements.',
     ['inputs'], 'every 2x2 matrix and every scalar over the reals, 16-bit fixed point and integers',
     'Tests invert one fixed matrix; singular and non-symmetric ones are not looked at.', [MX], ['inverted'], note=real)

prop('K01', 'A Kalman update computes the textbook predict and correct equations',
     'One update turns the current state, covariance, control and measurement into exactly the state, gain and covariance of the standard Kalman filter equations. The result depends only on the observable state, so successive updates compose and copies of a filter evolve independently.',
     ['inputs', 'histories', 'configurations'], 'every real system, noise, state, control and measurement, for the supported sizes; any number of updates by composition',
     'Tests compare one trajectory of one system with recorded numbers.', [KF, MX], ['kalman update'],
     state=[dict(name='state and covariance', meaning='the estimate and its uncertainty', where=KF)], note=real)
prop('K02', 'Kalman covariance stays symmetric positive semidefinite and measurements help',
     'Starting from a symmetric positive semidefinite covariance, every update keeps the covariance symmetric and positive semidefinite. A measurement never increases the uncertainty over the prediction, a complete noise-free measurement determines the state, and without information the estimate is the prediction.',
     ['inputs', 'histories'], 'every system, noise and covariance (through its Cholesky factor), any number of updates by induction',
     'Tests follow one trajectory; the invariant is over all systems and histories.', [KF], ['kalman covariance update'], note=real)
prop('K03', 'Kalman time and observers: the clock counts steps and observing changes nothing',
     'The elapsed time is the number of updates times the time step, starting at zero, and a new filter reports the state and covariance it was given and a zero gain. Observing any of these, in any order, never changes the filter.',
     ['inputs', 'histories'], 'up to five updates with observers interleaved anywhere; every time step and initial state; real and 16-bit fixed-point',
     'Tests read the observers once in one order.', [KF], ['kalman observers'], note=real)
prop('K04', 'A Kalman update is defined for degenerate uncertainty',
     'When the innovation covariance is zero or singular, the gain is zero and the estimate and covariance are the prediction. With fixed-point numbers no update divides by zero or traps.',
     ['inputs'], 'every degenerate innovation covariance over the reals; every 16-bit fixed-point value in small systems',
     'No test has a singular innovation covariance.', [KF, MX], ['inverse in the gain computation'], note=real)

prop('B01', 'A biquad section computes its difference equation in every realization form',
     'The outputs of a second-order section are those of its difference equation with the given coefficients and past inputs and outputs, starting from rest, in each of its realization forms. The coefficients read back as given, and coefficients of the general form are normalized by dividing them by a0.',
     ['inputs', 'histories'], 'every coefficient and every input; 7 outputs from rest, which reach every internal state',
     'Tests compare a few outputs for fixed coefficients.', [BQ], ['step, step1, step2 and the direct forms'],
     state=[dict(name='delay line', meaning='the two state values of a section', where=BQ)], note=real)
prop('B02', 'A biquad section is a linear time-invariant system with isolated state',
     'The response of a section to a weighted sum of inputs is the weighted sum of responses, and delayed input gives delayed output. Reset puts it at rest, a copy carries on independently with the same history, and swapping exchanges coefficients and history.',
     ['inputs', 'histories'], 'every coefficient, weight and input; sequences up to 5 inputs with reset, copy and swap at any point',
     'Tests exercise one sequence.', [BQ, 'include/std/utility.hpp'], ['reset, swap, copy'], note=real)
prop('B03', 'Zeros, poles and gain of a section are the roots of its polynomials',
     'The zeros and poles a section reports are the roots of its numerator and denominator, real or in conjugate pairs. A section made from zeros, poles and a gain has exactly that transfer function and reports those zeros and poles back.',
     ['inputs'], 'every quadratic with non-zero leading coefficient; every pair of real or conjugate zeros and poles',
     'Tests use a few fixed roots.', [BQ], ['roots of the quadratic, construction from zeros and poles'], note=real)
prop('B04', 'A section is reported stable exactly if its poles are in the closed unit disc',
     'The stability answer of a second-order section is yes exactly when both roots of its denominator have magnitude at most one, whatever its numerator.',
     ['inputs'], 'every coefficient pair', 'Tests look at two or three sections; the boundary of the stability triangle is a curve in the plane.',
     [BQ], ['is_stable'], note=real)
prop('B05', 'The frequency response of a section is its transfer function on the unit circle',
     'The reported complex response at a frequency is the numerator over the denominator at that point of the unit circle; a steady sinusoid through the section is scaled by it, and negative frequencies give the conjugate. The impulse response of a moving average transforms to it.',
     ['inputs'], 'every coefficient and every frequency (an arbitrary point on the unit circle)',
     'Tests check no more than a few frequencies of fixed sections.', [BQ], ['response'], note=real)
prop('C01', 'A cascade of sections behaves as a bounded sequence container',
     'After any sequence of append, insert, remove, replace and clear, the size, the order of the sections, their coefficients and their state are those of a sequence under the same operations, for indexing, observers and iteration alike. An operation on a section that is not there, or an addition to a full cascade, is stopped by an assertion.',
     ['histories', 'configurations'], 'every valid sequence of 4 operations at capacities 1 to 4 from 0 to 2 initial sections; every misuse at capacity 3',
     'Tests run a few fixed sequences; shifting errors need particular positions and sizes.', [BC], ['push_back, insert, erase, at, iteration'],
     state=[dict(name='sections in use', meaning='the sequence of sections', where=BC)], note=real)
prop('C02', 'A cascade filters as the series connection of its sections',
     'The output of a cascade is that of its sections connected in series, in every realization form, from rest and after reset; its frequency response is the product of the responses of its sections and it is stable exactly if all of them are. Copies run independently.',
     ['inputs', 'histories'], '0 to 3 sections with arbitrary coefficients, 3 to 4 inputs, every frequency',
     'Tests run one fixed cascade.', [BC, BQ], ['step, response, reset, is_stable of the cascade'], note=real)
prop('D01', 'Every designed biquad is stable and made into a filter unchanged',
     'For every filter type, frequency strictly between zero and half the sample rate, quality factor above zero and gain, the designed section has its poles strictly inside the unit circle. A filter made from a design has its coefficients and starts at rest, and integer and mixed-type arguments design the same filter as real ones.',
     ['inputs', 'configurations'], 'all seven designs; every frequency, sample rate, quality factor and gain',
     'Tests design at one or two frequencies.', [BD], ['biquad_design, make_biquad'], note=real)
prop('D02', 'Low, high, band-pass and band-stop designs have the classic response',
     'At every frequency the low-pass, high-pass, band-pass and band-stop designs respond as the bilinear transform of the analog second-order prototype: unity and zero gain at the ends as the type demands, gain Q at a low- or high-pass corner, unity at a band-pass centre and zero at a band-stop centre.',
     ['inputs'], 'every design frequency, sample rate and Q; the response at every frequency',
     'Tests compare coefficients of a few designs with recorded numbers.', [BD], ['biquad_design per type'], note=real)
prop('D03', 'Shelf and peak designs have exactly the requested gain in decibels',
     'A low shelf, high shelf or peak has the requested gain in its region and unity gain at the other end, a cut undoes the boost of the same size, and zero decibels leaves the signal alone. Conversions between decibels and factors are inverse to each other for voltage and power, for real and whole numbers alike.',
     ['inputs'], 'every design frequency, sample rate, Q and gain; the response at every frequency; every ratio',
     'Tests compare a few designs with recorded numbers.', [BD, 'include/dsp/filter-design.hpp'], ['dbV_factor, dbV, shelf designs'], note=real)
prop('D04', 'The ready-made low-pass and high-pass filters realize their design',
     'A ready-made low- or high-pass filter filters a signal exactly as the corresponding designed second-order section, from rest and independently of other filters. A settled constant passes the low pass unchanged and is removed by the high pass.',
     ['inputs', 'histories'], 'every frequency, sample rate, Q and input sequence of 5 samples',
     'Tests barely touch these filters.', ['include/dsp/filter.hpp', BD], ['Lpf, Hpf'], note=real)
prop('O01', 'A one-pole filter computes its difference equation and reports its pole',
     'The outputs of a first-order section are those of its difference equation from rest, linearly and with isolated state under copy, reset and swap. It can be made from its coefficients or from its pole and gain, reports its pole, is stable exactly if the pole is in the closed unit disc, and its reported response is its transfer function on the unit circle.',
     ['inputs', 'histories'], 'every coefficient, input and frequency; sequences of up to 5 inputs',
     'Tests look at fixed coefficients.', [OP], ['step, poles, is_stable, response'], note=real)
prop('O02', 'One-pole low- and high-pass designs are stable and have unity pass-band gain',
     'For every cutoff below half the sample rate the one-pole design has its pole strictly inside the unit circle at the magnitude the cutoff determines, unity gain at frequency zero for a low pass and at half the sample rate for a high pass. The filter made of it has these coefficients, whatever numeric types the arguments have.',
     ['inputs'], 'every cutoff and sample rate', 'Tests look at one or two cutoffs.', [OD, OP], ['onepole_design, make_onepole'], note=real)
prop('H01', 'Chebyshev type 1 designs meet their specification',
     'A type 1 low- or high-pass design has the smallest sufficient order, is stable, and its magnitude response is the Chebyshev type 1 response: in the pass band it stays between unity and the allowed ripple, touching the ripple at the edge, and at the stop edge it attenuates at least as asked. Band edges beyond half the sample rate and other kinds of response are stopped by an assertion.',
     ['inputs', 'configurations'], 'filter orders 1 to 10; every sample rate, edge and ripple; the response at every frequency',
     'Tests do not evaluate the response of a design.', [CD], ['chebyshev1 design'], note=real)
prop('H02', 'Chebyshev type 2 designs meet their specification',
     'A type 2 low- or high-pass design has the smallest sufficient order, is stable, and its magnitude response is the Chebyshev type 2 response: monotonic in the pass band with unity gain at its far end, and in the stop band never above the requested attenuation, reaching it at the stop edge. Band edges beyond half the sample rate and other kinds of response are stopped by an assertion.',
     ['inputs', 'configurations'], 'filter orders 1 to 10; every sample rate, edge and attenuation; the response at every frequency',
     'Tests do not evaluate the response of a design.', [CD], ['chebyshev2 design'], note=real)
prop('H03', 'A designed cascade is turned into a filter with the same sections',
     'Making a filter cascade from a design takes over every section in order, so the filter responds as the product of the designed sections and is stable; a design with more sections than there is room for is stopped by an assertion.',
     ['inputs', 'configurations'], 'designs of 0 to 4, 12 and 300 sections with arbitrary coefficients; Chebyshev designs of order 1 to 6', 'Tests use one design.', [CD, BC], ['make_biquad_cascade'], note=real)
prop('R01', 'A range enumerates exactly the numbers from first up to last by step',
     'Iterating over a range yields first, first plus step and so on as long as the value is below last, and nothing else; an empty range yields nothing, and a range without an end continues indefinitely with its step.',
     ['inputs', 'configurations'], 'every first, last and positive step with up to 6 values, and at 300 steps; signed and unsigned types; real numbers',
     'Tests iterate fixed ranges.', [RG], ['range iterators'], note=bits)
prop('R02', 'Indices of an array or container are exactly its positions',
     'The indices of an array, container or list are zero up to its size, in order, each exactly once, however many elements there are.',
     ['inputs', 'configurations'], 'sizes up to 6, and 300; the ends for every size', 'Tests iterate fixed arrays.', [RG], ['indices'], note=bits)
prop('S01', 'Replacements of standard algorithms behave as the standard demands',
     'The algorithms and utilities supplied for the microcontroller (copy, fill, equality, swap, exchange of arrays and lists) give the results the C++ standard prescribes and touch nothing outside their ranges.',
     ['inputs', 'configurations'], 'every content of ranges of length 0 to 5', 'Tests on the host use the host library instead.',
     ['include/std/algorithm.hpp', 'include/std/utility.hpp'], ['std20 algorithms'], note=bits)
prop('S02', 'Replacements of standard types report the truth about the AVR types',
     'On the microcontroller, the supplied numeric limits, type traits, fixed-width types, tuples and complex numbers state exactly what the compiler implements.',
     ['configurations', 'inputs'], 'every standard integer and floating type of the target; every value for complex',
     'Tests on the host never see these headers.', ['include/std/limits.hpp', 'include/std/type_traits.hpp', 'include/std/complex.hpp', 'include/std/tuple.hpp'],
     ['AVR branches of the std headers'], note='The AVR target code is encoded. ')
prop('U01', 'Writing a register field changes that field only and reads back',
     'Writing a value to a field of a hardware register stores that value in exactly the bits of the field and leaves every other bit as it was; reading returns the stored value. A value too wide for a field of several bits is truncated to it; a value too wide never spills into neighbouring fields. Every read and write of the program reaches the register, in order, and no other register is accessed.',
     ['inputs', 'configurations'], 'every register content, field position, field width and value (all symbolic or enumerated by type)',
     'Tests on the host do not reach the hardware registers at all.', [REG], ['bitfield read and write'],
     state=[dict(name='I/O registers', meaning='memory-mapped hardware registers', where=ATM)], note='The AVR target code is encoded over a symbolic register file. ')
prop('U02', 'Combined lazy field writes update exactly the named fields in one access',
     'Combining several field writes of one register stores every named field, leaves all other bits as they were, truncates each value to its field, and takes one read and one write of the register.',
     ['inputs', 'configurations'], 'every register content and every value, combinations of up to 4 fields',
     'No test covers it.', [REG], ['write_lazy and the combining operator'], note='The AVR target code is encoded. ')
prop('U03', 'Set, clear, toggle and flag acknowledgement affect only the named bits',
     'Setting, clearing or toggling a field affects its bits only; acknowledging an interrupt flag writes a one to that flag and keeps the control bits of its register.',
     ['inputs', 'configurations'], 'every register content and field', 'No test covers it.', [REG, ATM], ['set, clear, toggle, trigger'], note='The AVR target code is encoded. ')
prop('U04', 'Bit mask and shift helpers are exact for every position and width',
     'The helpers that make masks from bit positions, counts and ranges set exactly the asked bits, for every position and width including the full register, and shifting a value into place and back is the identity. The access policies state what they allow.',
     ['inputs', 'configurations'], 'every position, width and value of 8 and 16 bit registers', 'No test covers it.', [REG], ['bitmask, rngmask, shl, shr'], note=bits)
prop('U05', 'Values shared with interrupt handlers are accessed atomically',
     'Reading or writing a multi-byte value through the atomic accessors gives a value that existed at one moment, wherever an interrupt handler that changes it runs, and interrupts, enabled before (the documented simplification), are enabled afterwards. A guarded scope runs without interrupts; a saved status register is restored.',
     ['schedules', 'inputs'], 'an interrupt at any instruction boundary (one or two interrupts), every old and new value',
     'Tests on the host have no interrupts.', [REG], ['scoped_interrupt_guard, atomic'], note='The AVR target code is encoded. ')
prop('U06', 'Every named register and field is where the ATmega328 has it',
     'Every register and field the library names refers to the address, bit position, width and access kind the ATmega328 data sheet gives.',
     ['configurations'], 'every named register field; every register content',
     'No test covers the register map.', [ATM], ['register and field declarations'], note='The AVR target code is encoded; the oracle is the data sheet, as literals in the harness. ')
prop('U07', 'Peripheral settings read back as set',
     'For timers, converter, comparator, ports and memory, what was set is what the current-setting query reports, for every mode and value the interface offers, with the code the data sheet gives, and setting one aspect leaves the others.',
     ['inputs', 'configurations'], 'every register content, every mode and value', 'No test covers it.', [ATM], ['set/current pairs'], note='The AVR target code is encoded. ')
prop('U08', 'Two-wire transfers issue the bus protocol steps in order',
     'Initialisation sets the bit rate and prescaler given, enables the interface and the pull-ups; a transfer issues start, address, data and stop with the right control bits, waits for each step to complete, and reports a failure when the status is not the expected one.',
     ['inputs', 'histories'], 'every address, data byte and status sequence within the polling bound', 'No test covers it.', [ATM], ['twi'], note='The AVR target code is encoded. ')
prop('U09', 'General-purpose pins: direction, output and input touch only their pin',
     'Configuring, driving, toggling or reading a pin of a port affects or reports that pin only, at the port it belongs to; a LED and the PWM output use their pin likewise.',
     ['inputs', 'configurations'], 'every port, pin and register content', 'No test covers it.', [ATM], ['gpio'], note='The AVR target code is encoded. ')
prop('X01', 'Fixed-point arithmetic gives the same results on the microcontroller',
     'Compiled for the microcontroller, where int has 16 bits, fixed-point operations give the same results as specified for the host: exact sums, products rounded down, truncated quotients, faithful conversion to integers.',
     ['inputs', 'configurations'], 'every pair of values for 8 and 16 bit formats and several 32 bit ones',
     'Tests run on the host only.', [FP], ['fixed_point under 16-bit int'], note='The AVR target code is encoded. ')
prop('X02', 'Matrices, filters and estimator compute exactly in fixed point',
     'Matrix algebra, filter sections, cascades, one-pole filters and the Kalman estimator accept fixed-point numbers. When every value of the calculation is on the grid of the format and within its range, their results are exactly those of the real calculation; in filters, where products fall between grid points, each product costs at most one unit in the last place.',
     ['inputs', 'histories'], 'every value in stated ranges of two formats, three filter steps and one estimator update; rounding for every value of an 8 bit format over two steps',
     'The estimator examples run in fixed point; no test does, except for the inverse of one matrix.', [FP, MX, KF, BQ, BC, OP], ['templates instantiated with num::fixed_point'], note=bits)
prop('T01', 'Text output of numbers, matrices and filters shows their contents',
     'Printing a fixed-point number, matrix, vector, filter section, cascade, one-pole filter, design or design information writes its contents completely, in order and in the layout it has today: matrices row by row, one line each; vectors in brackets; filters with what the stability test says, then coefficients, state, poles and zeros. A fixed-point number is written as the number it stands for. Output can be chained and does not change what is written.',
     ['inputs', 'configurations'], 'every value; matrices up to 3x3, vectors and cascades of every size up to 3 and 2', 'Tests compare a few strings.',
     ['include/core/text.hpp', 'include/num/matrix-io.hpp', 'include/num/fixed-point-io.hpp', 'include/dsp/biquad-io.hpp', 'include/dsp/biquad-cascade-io.hpp', 'include/dsp/onepole-io.hpp', 'include/dsp/chebyshev-design-io.hpp', 'include/core/vector-io.hpp'],
     ['stream insertion operators'])
prop('T02', 'Text helpers and the value cast do what they say',
     'line( n, c ) gives n times c, dashes by default; replaced( text, from, to ) replaces the first occurrence of from and nothing else, and returns the text as it is when from does not occur; as<T>( x ) is x converted to T.',
     ['inputs'], 'every text up to 4 characters with patterns up to 2, every line up to 20, every value cast', 'Tests compare a few strings.',
     ['include/core/text.hpp', 'include/core/shims.hpp'], ['line, replaced, as, cast'])


def main():
    claimed = lambda i: bool(glob.glob(os.path.join(HERE, 'harness', i + '_*.cpp')))
    skip = set(open(os.path.join(HERE, 'tools', 'unclaimed')).read().split()) if os.path.exists(os.path.join(HERE, 'tools', 'unclaimed')) else set()
    checks, na = [], []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in P:
            c = claimed(p['id']) and p['id'] not in skip
            if not c and not p['na']:
                continue
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], state=list(p['state']),
                                  mechanism=[dict(name=m, where=p['files'][0]) for m in p['mech']]))
            assert len(p['title']) <= 80, p['title']
            fh.write(json.dumps(d) + '\n')
            if c:
                checks.append(dict(
                    property=p['id'], quick_cmd='./check.py ' + p['id'],
                    thorough_cmd='VERIF_TIER=thorough ./check.py ' + p['id'],
                    evidence_file='evidence/%s.json' % p['id'],
                    technique='symbolic execution of the compiled LLVM IR of the real headers, assertions decided by SMT (z3, cvc5) over all inputs within the bounds',
                    level='model_checking',
                    level_note=p['note'] + 'Every path within the stated bounds is decided by the solver or by exact algebraic normalisation; counterexamples are replayed in the natively built code before they count. Trusted: clang 18 as the front end, the symbolic executor, the models of the math library, z3.'))
            else:
                na.append(dict(property=p['id'], reason=p['na']))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             notes='No hooks in /repo. Defects found and repaired are listed in KNOWN_FINDINGS.txt.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks,', len(na), 'not applicable')
main()
