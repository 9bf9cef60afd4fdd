"""The table of properties."""
SIM = ['src/pydsm/delsig/_simulateDSM.py',
       'src/pydsm/delsig/_simulateDSM_scipy.py',
       'src/pydsm/delsig/_simulateDSM_cblas.pyx',
       'src/pydsm/delsig/_simulateDSM_scipy_blas.pyx',
       'src/pydsm/delsig/_simulateDSM_helper.pxi']
TV = 'TLA+ bounded model checked with TLC; traces of the real code ' \
     'validated by TLC against the specification'

PROPS = [
 dict(id='M01', title='Modulator simulation obeys the state-space recurrence',
  statement='Simulating a Delta-Sigma modulator given in ABCD form delivers, '
  'at every clock cycle, quantizer inputs y = Cx + Du, quantizer outputs '
  'v = Q(y) and next states x\' = Ax + B[u;v], whatever the simulation '
  'engine, the order, the number of inputs and of quantizers, the initial '
  'state and the way the arguments are passed. Q rounds to odd integers '
  '(even number of levels) or to even integers (odd number of levels) with '
  'step 2, ties going upward, and saturates at plus or minus the number of '
  'levels less one.',
  over=['inputs', 'configurations', 'histories'],
  q='All modulators, inputs, numbers of levels, initial states and engines; '
  'all cycles of the run.',
  why='Existing tests run the simulator on two or three fixed modulators and '
  'compare few outputs with stored data; most orders, multiple inputs and '
  'quantizers, ties, saturation, memory layouts are never exercised.',
  files=SIM, mech=[('state update and quantizer loops', p) for p in SIM[1:]],
  technique=TV,
  note='Exhaustive for all input words of length 3 (4) over a catalogue of 8 '
  'modulators; random modulators up to order 9, 3 inputs and 3 quantizers '
  'for the three engines, long runs (up to 1500 cycles) and loops up to '
  'order 17, each cycle checked in exact arithmetic with a '
  '1e-12 relative allowance for rounding.'),
 dict(id='M02', title='Recording switches only select what is returned',
  statement='The switches asking the modulator simulator to record states, '
  'state maxima and quantizer inputs never change the simulated outputs. '
  'When asked for, the record of the states holds the state after each '
  'sample (otherwise the final state is returned), the maxima are the '
  'largest absolute values reached by each state variable, initial state '
  'included, and the record of the quantizer inputs holds one entry per '
  'sample and quantizer; what was not asked for is empty.',
  over=['inputs', 'configurations', 'histories'],
  q='All modulators, inputs, engines and all combinations of the switches.',
  why='The tests use at most one combination of the switches on one '
  'modulator.',
  files=SIM, mech=[('recording of states, maxima and quantizer inputs', p)
                   for p in SIM[1:4]],
  technique=TV,
  note='All 8 combinations of the switches are compared by the TLA+ machine '
  'with the history it has stepped through; contents, sizes and shapes.'),
 dict(id='M03', title='Simulation engines are interchangeable',
  statement='All the available modulator simulation engines deliver the same '
  'outputs, states, state maxima and quantizer inputs for the same request, '
  'and so does the automatic choice of the engine.',
  over=['inputs', 'configurations'],
  q='All modulators, inputs, initial states and pairs of engines.',
  why='The tests compare engines on a couple of fixed modulators with a '
  'single input, a single quantizer and null initial state.',
  files=SIM, mech=[('engine dispatch', SIM[0])] +
  [('engine', p) for p in SIM[1:4]],
  technique=TV,
  note='Runs of every engine are compared, cycle by cycle, by the TLA+ '
  'machine: exactly where double precision arithmetic is exact, otherwise '
  'within rounding until a quantizer input comes close to a threshold.'),
 dict(id='M04', title='A simulation can be split and continued',
  statement='Simulating a modulator over an input in any number of '
  'consecutive pieces, each started from the final state delivered for the '
  'previous one, gives the same outputs, quantizer inputs and states as '
  'simulating the whole input at once.',
  over=['inputs', 'histories'],
  q='All modulators, inputs and partitions of the input into pieces '
  '(including single-sample pieces), for every engine.',
  why='No test continues a simulation; the law ranges over all partitions.',
  files=SIM, mech=[('initial and final state handling', p)
                   for p in SIM[1:4]],
  technique=TV,
  note='Random partitions (including one-sample and empty pieces) of random '
  'and model generated inputs, all engines.'),
 dict(id='M05', title='NTF-specified modulators shape the noise as specified',
  statement='When the modulator is specified by a realizable noise transfer '
  'function, its simulated output v and quantizer input y are such that '
  'v - u is v - y filtered by that noise transfer function, and v is the '
  'quantization of y, for every engine and every number of levels.',
  over=['inputs', 'configurations', 'histories'],
  q='All realizable real noise transfer functions (FIR or IIR), inputs and '
  'numbers of levels; all samples of the run.',
  why='Tests only check a stored output or an approximate SNR for one or two '
  'NTFs; the identity must hold sample by sample for every NTF.',
  files=SIM, mech=[('realization of the loop filter', p) for p in SIM[1:4]],
  technique=TV,
  note='The law is proved by TLC to follow from the state-space machine on '
  'the bounded model; on the code it is checked sample by sample on 400 '
  '(3000) NTFs of order 1..12 within 1e-9 of the magnitude of the terms.'),
 dict(id='M06', title='Malformed simulation requests are reported',
  statement='A modulator simulation request whose engine name, number of '
  'levels, input, modulator description or initial state is malformed or '
  'inconsistent raises the documented error for one of its faults, while a '
  'well formed request never raises. In no case are the arguments '
  'altered.',
  over=['inputs', 'configurations'],
  q='All combinations of well formed and malformed arguments.',
  why='No test passes malformed arguments to the simulator.',
  files=SIM, mech=[('argument validation', p) for p in SIM[:4]],
  technique='TLA+ model of the argument space enumerated by TLC; every '
  'enumerated request replayed on the code and judged by the specification',
  note='All requests of the model space (sizes 1..3, 5 kinds of quantizer '
  'specification, 5 of input, 6 of structure, 8 of initial state, 5 engine '
  'names) with at most one (two) malformed aspects.'),
 dict(id='O01', title='Optional parameters follow one protocol everywhere',
  statement='Every function taking optional parameters uses, for each option '
  'and sub-option, the value passed by the caller or else the current '
  'default of that very function; dictionary options are overlaid entry by '
  'entry; options that do not apply are reported as TypeError; a call alters '
  'neither the defaults nor the dictionaries it receives, and changing the '
  'defaults of a function affects that function only. The value in force is '
  'the one that reaches the numerical back end.',
  over=['histories', 'configurations', 'inputs'],
  q='All functions with options, all options and sub-options, all histories '
  'of changes of the defaults and calls.',
  why='Tests never change a default nor look at what reaches the '
  'integrator or the optimizers; cross-talk between functions only shows '
  'after particular histories.',
  files=['src/pydsm/utilities.py', 'src/pydsm/ft.py',
         'src/pydsm/NTFdesign/weighting/_fir_weighting.py',
         'src/pydsm/NTFdesign/minmax/_fir_minmax.py',
         'src/pydsm/NTFdesign/psychoacoustic.py',
         'src/pydsm/NTFdesign/filter_based.py',
         'src/pydsm/NTFdesign/merit_factors.py',
         'src/pydsm/NTFdesign/helpers.py', 'src/pydsm/delsig/_clans.py'],
  mech=[('digested_options', 'src/pydsm/utilities.py'),
        ('default_options tables',
         'src/pydsm/NTFdesign/weighting/_fir_weighting.py')],
  technique='TLA+ machine of the defaults tables; histories generated by TLC '
  '(simulation, plus exhaustive sweep of the options) replayed on the code, '
  'whose recorded traces TLC validates',
  note='Integrator and optimizers are replaced by recorders, so that the '
  'effective options are observed; every option of every function and '
  'modeler; 200 (2500) random histories of length 4; digested_options '
  'exhaustively on small dictionaries.'),
 dict(id='M07', title='The quantizer function delivers the nearest level',
  statement='ds_quantize(y, n) maps every entry of y to a level of an '
  'n-level quantizer with step 2 (odd integers up to n-1 in magnitude for '
  'even n, even integers for odd n) that is nearest to it, ties going '
  'upward, and saturates outside; with one number of levels per quantizer '
  'each row of y uses its own; the result has the shape of y; the argument '
  'is not altered. It is the quantizer which the simulator applies.',
  over=['inputs'],
  q='All arrays (scalars, vectors, matrices), all numbers of levels.',
  why='No test of the suite calls ds_quantize.',
  files=['src/pydsm/delsig/_ds.py'],
  mech=[('ds_quantize', 'src/pydsm/delsig/_ds.py')], technique=TV,
  note='All integer and half-integer inputs up to beyond saturation for '
  'every number of levels up to 5 and pairs of quantizers from TLC; random '
  'arrays, ties and their floating point neighbours, in exact arithmetic.'),
 dict(id='C01', title='cplxpair sorts into exact conjugate pairs or refuses',
  statement='cplxpair returns a rearrangement (within the tolerance) of its '
  'input along the requested dimension where complex values come first, in '
  'exact conjugate pairs, the one with negative imaginary part first, pairs '
  'by increasing real part, then the real values in increasing order with '
  'null imaginary part. When the values cannot be so paired it raises '
  'ValueError. The argument is not altered.',
  over=['inputs'],
  q='All arrays of complex numbers of any shape, all dimensions and '
  'tolerances.',
  why='A single doctest; permutations, repeated values, several pairs with '
  'the same real part, values on the tolerance and multidimensional arrays '
  'are not sampled.',
  files=['src/pydsm/relab.py'],
  mech=[('cplxpair', 'src/pydsm/relab.py')], technique=TV,
  note='All sequences up to length 3 (4) over a set of conjugate, real, '
  'unpaired values from TLC, with the acceptance decided by the '
  'specification; random arrays up to rank 3 perturbed by less and by more '
  'than the tolerance.'),
 dict(id='A01', title='Array shifts, paddings and partitions move data unchanged',
  statement='shiftdim rotates the axes left (n>0), adds leading singleton '
  'axes (n<0), or drops the leading singleton axes (n omitted); padl, padr, padt, padb extend the requested '
  'side to the requested size with the requested value and nothing else; '
  'partitionABCD returns the four blocks of a partitioned matrix, for the '
  'given or deduced number of inputs. Every element keeps its value, each '
  'exactly once, and the argument is not altered.',
  over=['inputs'],
  q='All arrays, shapes, shifts, sides, sizes and pad values, including '
  'complex ones.',
  why='Tests pad two fixed arrays and a doctest partitions a matrix; '
  'shiftdim has only a doctest, which fails.',
  files=['src/pydsm/relab.py', 'src/pydsm/delsig/_padding.py',
         'src/pydsm/delsig/_partitionABCD.py'],
  mech=[('shiftdim', 'src/pydsm/relab.py'),
        ('padl, padr, padt, padb', 'src/pydsm/delsig/_padding.py'),
        ('partitionABCD', 'src/pydsm/delsig/_partitionABCD.py')],
  technique=TV,
  note='All shapes up to rank 3 (4) with sizes 1..3 and all shifts; all '
  'partitions with up to 4 rows and columns; index by index comparison.'),
 dict(id='B01', title='Decibel, spacing, rms, chop and product services are exact',
  statement='db, dbv, dbp, dbm and undbv, undbp, undbm follow their '
  'definitions (20 or 10 log10, optional impedance, -inf for zero, '
  'magnitude of complex values), accept lists, scalars and arrays, and are '
  'inverse to each other; eps gives the distance to the next floating point '
  'number; rms is the root mean square, optionally without the mean; chop '
  'zeroes the real and imaginary parts whose magnitude is below the '
  'tolerance and leaves the others unaltered; mdot is the ordinary product '
  'of a chain of matrices. No argument is altered.',
  over=['inputs'],
  q='All scalars and arrays, all impedances, tolerances, chain lengths.',
  why='No tests for most of them; only one or two doctests.',
  files=['src/pydsm/delsig/_decibel.py', 'src/pydsm/delsig/_rms.py',
         'src/pydsm/relab.py', 'src/pydsm/utilities.py'],
  mech=[('db, dbv, dbp, dbm, undbv, undbp, undbm',
         'src/pydsm/delsig/_decibel.py'), ('rms', 'src/pydsm/delsig/_rms.py'),
        ('eps', 'src/pydsm/relab.py'),
        ('chop, mdot', 'src/pydsm/utilities.py')],
  technique='Calls of the real code recorded as traces and validated by TLC '
  'against their TLA+ definitions in arbitrary precision decimals',
  note='Random values over the whole range of doubles (and floats for eps), '
  'powers of two and neighbours, zero, complex values.'),
 dict(id='K01', title='Correlations are the correlation sums, for every lag',
  statement='raw_acorr(x, N) and raw_xcorr(x, y, N) return for every lag '
  'k = 0..N the sum over n of y(n) x(n-k) (y = x for the first), with zeros '
  'beyond the overlap of the sequences, also when the sequences have '
  'different lengths, for every N up to the length of y. The arguments are not altered.',
  over=['inputs'],
  q='All real or complex sequences of any lengths and all N.',
  why='No tests.',
  files=['src/pydsm/correlations.py'],
  mech=[('raw_acorr, raw_xcorr', 'src/pydsm/correlations.py')],
  technique=TV,
  note='All pairs of sequences over {-1, 0, 2} up to length 3 and all N up '
  'to the length; random real and complex sequences up to length 40 and some of several '
  'hundreds, small integer types.'),
 dict(id='E01', title='Polynomials and transfer functions take their exact values',
  statement='evalRPoly evaluates k prod(x - r) ignoring infinite roots; '
  'evalTF evaluates a transfer function given in zero-pole-gain or '
  'numerator-denominator form, and both forms of one transfer function give '
  'the same values, for any array of real or complex points, whose shape is '
  'kept (evalTF returns a scalar for a single point).',
  over=['inputs'],
  q='All sets of roots, transfer functions in either form, evaluation '
  'points.',
  why='No direct test.',
  files=['src/pydsm/delsig/_tf.py'],
  mech=[('evalRPoly, evalTF', 'src/pydsm/delsig/_tf.py')],
  technique='Calls of the real code recorded as traces and validated by TLC '
  'against their TLA+ definitions in arbitrary precision decimals',
  note='Random transfer functions up to order 10 (some much higher), repeated '
  'roots, roots at both infinities, complex gains, small integer types; points on, inside and off the unit circle.'),
 dict(id='I01', title='Impulse responses satisfy the recurrence of the filter',
  statement='impulse_response returns the first m samples of the impulse '
  'response of a filter given in zpk or ba form; with no m, or by '
  'guess_ir_length, its length is enough for the slowest pole to decay by '
  'the requested amount of decibels and no longer than needed. '
  'The arguments are not altered.',
  over=['inputs'],
  q='All causal stable filters in any form, all m and decays.',
  why='One test on one filter.',
  files=['src/pydsm/ir.py'],
  mech=[('impulse_response, guess_ir_length', 'src/pydsm/ir.py')],
  technique=TV,
  note='Filters with small integer coefficients enumerated by TLC, random '
  'filters up to order 6 (some higher) in both forms.'),
 dict(id='F01', title='Discrete-time Fourier transforms follow their definition',
  statement='dtft, dtft_hermitian, idtft, idtft_hermitian and fft_centered '
  'compute the transforms they document for any sampling frequency, time '
  'origin, real or complex sequence and scalar or array argument; the '
  'inverse transforms give the sequence back; fft_centered lists '
  'frequencies from -fs/2 upward.',
  over=['inputs'],
  q='All sequences, sampling frequencies, time origins, frequencies/times.',
  why='Tests transform two fixed sequences with fs=1.',
  files=['src/pydsm/ft.py'],
  mech=[('dtft, idtft, hermitian variants, fft_centered',
         'src/pydsm/ft.py')],
  technique='Calls of the real code recorded as traces and validated by TLC '
  'against their TLA+ definitions in arbitrary precision decimals',
  note='Random sequences up to length 12 (some much longer), small integer '
  'types, and transforms of sequences for '
  'the inverse; several fs, t0; complex inputs.'),
 dict(id='N01', title='Quantization noise gains and their quadratic form agree',
  statement='quantization_noise_gain is the power gain of NTF times '
  'weighting filter, averaged or integrated over the requested bands, '
  'whatever the form of the weighting (zpk, ba, impulse response, '
  'function of the frequency) and of the NTF; q0_weighting delivers the '
  'autocorrelation entries of the weighting, such that the quadratic form '
  "h' Toeplitz(q0) h equals the noise gain of the FIR NTF h; "
  'q0_from_filter and the legacy functions agree with them; mult_weightings delivers '
  'the product of any number of weightings in any form.',
  over=['inputs', 'configurations'],
  q='All NTFs, weighting filters and functions, orders and bounds.',
  why='Two tests compare one brickwall filter.',
  files=['src/pydsm/NTFdesign/weighting/_quantization_noise_gain.py',
         'src/pydsm/NTFdesign/weighting/_fir_weighting.py',
         'src/pydsm/NTFdesign/merit_factors.py',
         'src/pydsm/NTFdesign/legacy/_q0_from_ir.py',
         'src/pydsm/NTFdesign/legacy/_quantization_noise_gain.py'],
  mech=[('quantization_noise_gain',
         'src/pydsm/NTFdesign/merit_factors.py'),
        ('q0_weighting',
         'src/pydsm/NTFdesign/weighting/_fir_weighting.py')],
  technique=TV,
  note='The specification evaluates the gains of rational filters by exact '
  'impulse responses (whose length is bounded), brickwall bands by closed '
  'form; random filters and NTFs.'),
 dict(id='G01', title='rmsGain is the rms of the gain over the sampled band',
  statement='rmsGain(H, f1, f2, N) is the root mean square of |H| over N '
  'points equally spaced in [f1, f2], end points included, for H in either '
  'form.',
  over=['inputs'],
  q='All transfer functions, bands and N.',
  why='No test.',
  files=['src/pydsm/delsig/_rmsGain.py'],
  mech=[('rmsGain', 'src/pydsm/delsig/_rmsGain.py')],
  technique='Calls of the real code recorded as traces and validated by TLC '
  'against their TLA+ definitions in arbitrary precision decimals',
  note='Random transfer functions up to order 6, N from 2 to 100.'),
 dict(id='Z01', title='Optimal zeros minimize the noise in the signal band',
  statement='ds_optzeros(n, opt) lists n frequencies relative to the band '
  'edge, symmetric about 0 (0 first if n is odd, then couples): all null '
  'with opt=0, otherwise those minimizing the energy over the band of the '
  'product of the corresponding factors, with two of them bound to the '
  'centre for even n and opt=2; n>14 raises ValueError. '
  'ds_f1f2 delivers the extremes of the signal band for low-pass, band-pass '
  'and quadrature modulators. ds_synNTFobj1 is the rms gain in that band, '
  'in dB, of the NTF with the given zero frequencies and poles.',
  over=['inputs', 'configurations'],
  q='All orders up to 14 and beyond, options, oversampling ratios, centre '
  'frequencies, zero offsets and poles.',
  why='The zeros for one order only are looked at by a test (order 7).',
  files=['src/pydsm/delsig/_ds.py'],
  mech=[('ds_optzeros, ds_f1f2, ds_synNTFobj1', 'src/pydsm/delsig/_ds.py')],
  technique=TV,
  note='The optimal zeros are characterized in TLA+ as the roots of '
  'orthogonal polynomials built by Stieltjes recurrence (TLC checks their '
  'orthogonality and number of roots); every n up to 16, all opt; random '
  'bands and objectives.'),
 dict(id='Z02', title='Design helpers deliver flat and spread zeros as documented',
  statement='maxflat_fir_zeros(n, alpha) delivers the n distinct stable '
  'roots whose half sum with the reciprocal, less one, has a n-th power '
  'with modulus (1/2)^n/alpha and the sign that makes the response real and '
  'maximally flat. spread_fir_uc_zeros(n, OSR, cost) delivers n zeros on '
  'the unit circle within the signal band, conjugated, one in z=1 for odd '
  'n, that are not beaten by known placements for that cost; extra '
  'arguments are passed to the cost function.',
  over=['inputs'],
  q='All orders, alpha, oversampling ratios.',
  why='One test, order 7 and OSR 32.',
  files=['src/pydsm/NTFdesign/helpers.py'],
  mech=[('maxflat_fir_zeros, spread_fir_uc_zeros',
         'src/pydsm/NTFdesign/helpers.py')],
  technique='Calls of the real code recorded as traces and validated by TLC '
  'against their TLA+ laws in arbitrary precision decimals',
  note='Random orders up to 8, alpha over 7 decades; in-band noise as cost, '
  'compared with Legendre zeros and zeros at DC, and costs that call for '
  'zeros out of the band.'),
 dict(id='S01', title='Schreier synthesis delivers the NTF its contract describes',
  statement='synthesizeNTF delivers a monic NTF with the requested number of '
  'zeros and poles, closed under conjugation; its zeros are those given, or '
  'in the signal band at the optimal positions (with opt 3, 4 not noisier '
  'than those; with opt 2, 4 and even order per band one at the centre); its '
  'poles are stable, make the denominator maximally flat at the band centre '
  'and the gain at the far end of the spectrum equal to H_inf, or are all '
  'null, with a warning, if H_inf is out of reach. With opt=0 the gain never '
  'exceeds that. A too low centre frequency gives a low-pass NTF and a '
  'warning; out of range frequencies, odd band-pass orders, wrong zero '
  'vectors, too many optimized zeros raise ValueError. It holds with and '
  'without the optimizer.',
  over=['inputs', 'configurations'],
  q='All orders, oversampling ratios, opt values or vectors, H_inf, f0, and '
  'use_optimizer settings.',
  why='Tests compare a handful of designs with DELSIG results; most '
  'combinations (low or high H_inf, high orders, given zeros, band-pass) '
  'are never run.',
  files=['src/pydsm/delsig/_synthesizeNTF.py',
         'src/pydsm/delsig/_synthesizeNTF0.py',
         'src/pydsm/delsig/_synthesizeNTF1.py', 'src/pydsm/delsig/_ds.py'],
  mech=[('synthesizeNTF', 'src/pydsm/delsig/_synthesizeNTF.py'),
        ('zeros and poles', 'src/pydsm/delsig/_synthesizeNTF0.py'),
        ('zero optimization', 'src/pydsm/delsig/_synthesizeNTF1.py')],
  technique=TV,
  note='TLC enumerates the classes of requests (order 1..6, 8 kinds of '
  'centre frequency, 7 of opt, 4 of H_inf, both methods); one random '
  'request per class (and 1500 more in the thorough tier) judged by the '
  'algebraic laws of the contract.'),
 dict(id='S02', title='Chebyshev synthesis delivers type 2 Chebyshev NTFs',
  statement='synthesizeChebyshevNTF delivers a monic stable NTF of the '
  'requested order, closed under conjugation, with zeros on the unit circle '
  'inside the signal band, whose squared magnitude follows the type 2 '
  'Chebyshev law for that band (equal ripples in it, monotonic outside), '
  'and whose gain at the far end is H_inf, unless the attenuation would '
  'exceed 300 dB. An odd order with f0 other than 0 raises ValueError.',
  over=['inputs'],
  q='All orders, oversampling ratios, H_inf, f0.',
  why='One design is compared with stored data.',
  files=['src/pydsm/delsig/_synthesizeChebyshevNTF.py'],
  mech=[('synthesizeChebyshevNTF',
         'src/pydsm/delsig/_synthesizeChebyshevNTF.py')],
  technique=TV,
  note='Classes of requests enumerated by TLC, orders up to 6 (8); the law '
  'is evaluated at 10 frequencies inside and outside the band in '
  'arbitrary precision.'),
 dict(id='S03', title='CLANS designs honour their constraints',
  statement='clans delivers a monic NTF with the zeros of the corresponding '
  'Schreier design, poles closed under conjugation with modulus up to rmax '
  'and impulse response whose 1-norm less one is within the number of levels '
  'nq; it warns when and only when it cannot. Its gain at the band edge is '
  'not beaten by maximally flat designs that satisfy the constraints. '
  'dsclansNTF maps dampings and frequencies to poles by the documented '
  'bilinear transform.',
  over=['inputs'],
  q='All orders, oversampling ratios, nq, rmax, opt.',
  why='One design is compared with stored data.',
  files=['src/pydsm/delsig/_clans.py', 'src/pydsm/delsig/_dsclansNTF.py'],
  mech=[('clans', 'src/pydsm/delsig/_clans.py'),
        ('dsclansNTF', 'src/pydsm/delsig/_dsclansNTF.py')],
  technique=TV,
  note='Classes of requests enumerated by TLC, orders up to 4 (6); the '
  '1-norm is computed in the specification by the recurrence of the filter.'),
 dict(id='D01', title='Weighted FIR and hybrid designs are optimal',
  statement='ntf_fir_from_q0, ntf_fir_weighting and ntf_hybrid_weighting '
  'deliver, with each modeler and solver, a monic NTF of the requested order '
  'with the given poles (completed by poles at the origin), whose gain does '
  'not exceed H_inf at any frequency and for which the weighted noise power '
  '(the quadratic form of the given matrix, or the integral of the squared '
  'gain times the weighting, be it a function or a filter) is not above that '
  'of any other NTF with the same poles and gain limit, whatever the '
  'normalization. Unsupported modelers and too many poles are refused.',
  over=['inputs', 'configurations'],
  q='All orders, weightings, gain limits, poles, modelers, solvers, '
  'normalizations.',
  why='Tests compare two designs of fixed order with one another; none '
  'checks that the result is feasible at all the frequencies or that it is '
  'optimal.',
  files=['src/pydsm/NTFdesign/weighting/_fir_weighting.py',
         'src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy.py',
         'src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py',
         'src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py'],
  mech=[('ntf_fir_from_q0, ntf_hybrid_weighting',
         'src/pydsm/NTFdesign/weighting/_fir_weighting.py'),
        ('ntf_fir_from_digested',
         'src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy.py'),
        ('ntf_fir_from_digested',
         'src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py'),
        ('ntf_fir_from_digested',
         'src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py')],
  technique=TV,
  note='The specification derives from Lagrange multipliers, given as hints, '
  'a lower bound of the objective over all the feasible NTFs (weak duality); '
  'TLC checks that the bound is sound on small instances for any hint. '
  'Requests enumerated by TLC, orders up to 6 (12); norms compared to within '
  '5e-4 relative plus 3e-6 of the norm of the weighting.'),
 dict(id='D02', title='Min-max FIR designs are optimal',
  statement='ntf_fir_minmax delivers, with each modeler, a monic FIR NTF of '
  'the requested order whose gain does not exceed H_inf at any frequency, '
  'that has zeros at the centre of every band if so requested, and whose '
  'largest gain over the signal bands is not above that of any other such '
  'NTF. Requests that no NTF satisfies fail, and so do inconsistent '
  'multiband specifications and unsupported modelers.',
  over=['inputs', 'configurations'],
  q='All orders, sets of bands, gain limits, modelers.',
  why='Tests compare designs with one another for few parameters.',
  files=['src/pydsm/NTFdesign/minmax/_fir_minmax.py',
         'src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py',
         'src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py',
         'src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py'],
  mech=[('ntf_fir_minmax', 'src/pydsm/NTFdesign/minmax/_fir_minmax.py'),
        ('ntf_fir_from_digested',
         'src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py')],
  technique=TV,
  note='Bounds by weak duality as in D01, with multipliers for the bands, '
  'the gain and the assigned zeros; infeasible requests are recognized by '
  'the same bound. Orders up to 5 (9), up to 4 with unlimited gain (the '
  'solvers fail above); squared gains compared to within 2e-3 plus 2e-6.'),
 dict(id='D03', title='Psychoacoustic designs',
  statement='ntf_fir_audio_weighting delivers the optimal FIR NTF for the '
  'noise weighting given by the audio weighting (a function or the name of '
  'a standard one) within the audio band, mapped according to the '
  'oversampling ratio, clipped at max_attn and with the attenuation '
  'max_attn elsewhere. dunn_optzeros returns zeros that are stationary '
  'points of the F-weighted noise in the audio band, dunn_optzeros_cplx '
  'places them on the unit circle and ntf_dunn is the Schreier design with '
  'those zeros.',
  over=['inputs', 'configurations'],
  q='All orders, oversampling ratios, weightings, bands, attenuations.',
  why='Existing tests do not exercise these functions.',
  files=['src/pydsm/NTFdesign/psychoacoustic.py'],
  mech=[('ntf_fir_audio_weighting, dunn_optzeros, ntf_dunn',
         'src/pydsm/NTFdesign/psychoacoustic.py')],
  technique=TV,
  note='As in D01, with the weighting matrix computed in the specification '
  'from the formulas of the A-F weightings; orders up to 8 (12).'),
 dict(id='B02', title='Audio weightings and equal loudness contours',
  statement='The A, B, C, D and F weightings have their standard gains at '
  'all frequencies, as power or amplitude, normalized at 1 kHz or not; the '
  'published filters, scaled by the published gains, have the same '
  'magnitude. The tables of ISO 226 and the sound pressure and loudness '
  'levels they imply are those of the standard, the two directions are '
  'inverse of one another, extended tables replicate at 20 kHz the 20 Hz '
  'entry, contours are refused outside 0-90 phon and interpolated contours '
  'pass through the tabled points.',
  over=['inputs', 'configurations'],
  q='All frequencies, levels, flags.',
  why='Existing tests do not exercise the loudness contours and compare the '
  'weightings at few points.',
  files=['src/pydsm/audio_weightings.py', 'src/pydsm/iso226.py'],
  mech=[('weightings', 'src/pydsm/audio_weightings.py'),
        ('tabled_L_p, tabled_L_N, iso226_spl_itpl',
         'src/pydsm/iso226.py')],
  technique=TV,
  note='Formulas and tables of the standards in the specification, '
  'evaluated in arbitrary precision; TLC checks round trips and '
  'monotonicity at all tabled frequencies, enumerates the requests and '
  'validates the recorded answers.'),
dict(id='H01', title='Calls do not depend on history nor disturb the caller',
  statement='What a call returns, raises or warns is a function of its '
  'arguments only: it does not depend on the calls made before in the same '
  'process, nor on what the caller did with the objects that earlier calls '
  'took or returned. No call alters its arguments nor the global state of the '
  'process: numpy error settings and print options, random generators, '
  'warning filters, matplotlib backend, current directory, recursion limit, '
  'default options of the functions, options of the cvxopt solvers (except with the picos modeler, as picos '
  'itself changes these).',
  over=['histories', 'inputs'],
  q='All sequences of calls of the public functions.',
  why='Tests call each function once or twice with fresh arguments, in a '
  'fixed order; shared default arguments, caches and returned references to '
  'internal tables show only in longer histories.',
  files=['src/pydsm/iso226.py', 'src/pydsm/utilities.py',
         'src/pydsm/delsig', 'src/pydsm/NTFdesign', 'src/pydsm/cvxpy_tdr'],
  mech=[('all the public functions', 'src/pydsm'),
        ('iso226 tables', 'src/pydsm/iso226.py'),
        ('solver options', 'src/pydsm/cvxpy_tdr/procedures/call_solver.py')],
  technique=TV,
  note='Catalogue of 33 families of calls. TLC enumerates all ordered pairs '
  'of calls in a family (with and without the caller overwriting whatever '
  'it can in between), all pairs of families, and random sessions; each '
  'session runs in a process of its own and each of its answers is compared '
  'with that of the same call made first in a fresh process.'),
dict(id='H02', title='Calls in progress together do not interfere',
  statement='A call made while others are in progress, in other threads '
  'however these are interleaved or from a function that another call was '
  'given (a weighting, a filter, an objective), returns or raises what it '
  'would alone, and so do the others; also when they are given the same '
  'objects, or are calls of the same service. None of them alters its '
  'arguments, and after the last one the global state of the process is as '
  'before the first (with the picos and cvxpy modelers, except for the '
  'options of the cvxopt solvers).',
  over=['schedules', 'inputs'],
  q='All pairs of calls, and all the interleavings of their steps.',
  why='The tests make one call at a time. Settings kept in a shared place '
  'while a call is in progress, buffers or caches shared among calls only '
  'show when calls are switched at the wrong line.',
  files=['src/pydsm/cvxpy_tdr/procedures/call_solver.py',
         'src/pydsm/delsig', 'src/pydsm/NTFdesign', 'src/pydsm/ir.py'],
  mech=[('all the public functions', 'src/pydsm'),
        ('solver options', 'src/pydsm/cvxpy_tdr/procedures/call_solver.py'),
        ('numpy error handling', 'src/pydsm/ir.py')],
  technique=TV,
  note='171 calls in 34 families. MC_Inter generates the schedules (two '
  'calls, up to 4 switches; or one within a function given to the other) '
  'and proves that settings of each call make them all right; the driver '
  'forces them on the code, switching threads at given lines of the package: '
  'lines far apart and every line after which anything that calls could '
  'share (module variables, attributes and defaults of functions, class '
  'attributes, options of the solvers) has changed. Schedules that differ '
  'in the order of other lines only are run once. Other packages, and '
  'compiled code, are not interrupted.'),
dict(id='X01', title='Expressions of cvxpy_tdr mean what they say',
  statement='In the modeling language pydsm.cvxpy_tdr, expressions made of '
  'variables, parameters, numbers, dense and sparse matrices with sums, '
  'differences, products, negation, transposition, indexing, slicing, '
  'stacking, reshaping, diagonals, traces, sums have the shape, the value '
  '(under any assignment of variables and parameters), the variables and the '
  'parameters of the matching matrix expressions, whatever the order and the '
  'kinds of the operands; operands that do not fit are refused. Structured '
  'variables (symmetric, triangular) have the structure. Constraints relate '
  'the two sides entry by entry. A parameter takes the values that its '
  'attribute admits and refuses other ones; sparse arrays hold what was last '
  'stored in each entry.',
  over=['inputs', 'histories'],
  q='All expressions, assignments, histories of parameters and of entries.',
  why='The test suite only solves a couple of programs through this package, '
  'never with sparse arrays, reshaping, slices.',
  files=['src/pydsm/cvxpy_tdr'],
  mech=[('operators', 'src/pydsm/cvxpy_tdr/arrays.py'),
        ('scalars, trees', 'src/pydsm/cvxpy_tdr/scalars.py'),
        ('stacking, reshape, diag, trace, sum',
         'src/pydsm/cvxpy_tdr/utils.py'),
        ('equals, leq, geq, variable, parameter',
         'src/pydsm/cvxpy_tdr/interface.py')],
  technique=TV,
  note='Denotational specification of the expressions as matrices of '
  'polynomials under two assignments, with algebraic laws checked by TLC. '
  'All unary and binary expressions over 18 leaves and 7 numbers, selected '
  'depth 2 expressions and random ones of depth 5; all short histories of '
  'parameters and sparse arrays.'),
dict(id='X02', title='Convexity rules of cvxpy_tdr are sound and as stated',
  statement='is_affine, is_convex, is_concave and is_dcp of expressions, '
  'constraints and programs follow the rules of disciplined convex '
  'programming: sums, negations, products by constants whose sign is known '
  '(also from the attributes of parameters), functions with their documented '
  'curvature composed with arguments allowed by their monotonicity, programs '
  'used as functions. Nothing that is not convex (concave) is declared '
  'convex (concave); products of expressions that both have variables are '
  'refused when written; programs that do not follow the rules are refused '
  'by solve().',
  over=['inputs'],
  q='All expressions.',
  why='A sign or monotonicity mistake silently lets non convex programs to '
  'the solver, whose answers are then wrong; no test checks any of the '
  'predicates.',
  files=['src/pydsm/cvxpy_tdr'],
  mech=[('is_convex, is_concave, is_affine, sign predicates',
         'src/pydsm/cvxpy_tdr/scalars.py'),
        ('is_dcp', 'src/pydsm/cvxpy_tdr/constraints.py'),
        ('program.is_dcp, solve', 'src/pydsm/cvxpy_tdr/programs.py'),
        ('curvature of the functions', 'src/pydsm/cvxpy_tdr/functions')],
  technique=TV,
  note='Rules and values of 34 functions and programs in the '
  'specification; TLC proves the rules sound on a lattice of points (chords) '
  'for all the enumerated expressions, and generates the expressions whose '
  'classification by the code is validated.'),
dict(id='X03', title='Programs in cvxpy_tdr are solved to optimality',
  statement='program.solve() returns the optimal value of the program for '
  'the current values of the parameters, and leaves in the variables a point '
  'that satisfies the constraints and has that value, as often as it is '
  'called and whatever the values that parameters had before; it returns inf '
  '(minimize) or -inf (maximize) for infeasible linear and conic programs, '
  'the opposite for unbounded ones, and reports when the solver failed. '
  'Parameters without a value are refused. Functions (norms, square, sqrt, '
  'exp, log, huber, powers, geometric mean, log-sum-exp, Kullback-Leibler '
  'divergence, eigenvalues, quadratic forms, ...), sets (cones and '
  'hypographs) in which expressions are constrained to be, and programs used as '
  'functions have the documented values, both applied to numbers and inside '
  'of objectives and constraints.',
  over=['inputs', 'histories'],
  q='All programs within the rules, all histories of parameter values.',
  why='The tests of the package are a few designs; a wrong cone, gradient or '
  'sign in one function shows only with programs that use it.',
  files=['src/pydsm/cvxpy_tdr'],
  mech=[('call_solver', 'src/pydsm/cvxpy_tdr/procedures/call_solver.py'),
        ('expand', 'src/pydsm/cvxpy_tdr/procedures/expand.py'),
        ('re_eval', 'src/pydsm/cvxpy_tdr/procedures/re_eval.py'),
        ('programs', 'src/pydsm/cvxpy_tdr/programs.py'),
        ('functions', 'src/pydsm/cvxpy_tdr/functions'),
        ('cones', 'src/pydsm/cvxpy_tdr/sets')],
  technique=TV,
  note='Closed forms of the functions in arbitrary precision; programs over '
  'a segment of the plane with functional constraints, whose optimality TLC '
  'judges against a grid of points; infeasible and unbounded ones; '
  'histories of parameter values.'),
dict(id='X04', title='Parametric programs are functions of their formals',
  statement='A program of cvxpy_tdr with formal arguments (variables or '
  'parameters, scalars, elements or matrices, in any order) called with '
  'numbers delivers the optimal value of the program with the formals fixed '
  'at them (plus or minus infinity if there are no feasible points); called '
  'with expressions it can be used in other programs, as often as one '
  'likes, which are then solved as if its body was spelled out with '
  'variables of its own at each use; parameters that are not formals take '
  'their current values, and programs whose parameters have no value are '
  'refused; it is convex (if it minimizes) or concave (if it maximizes) in '
  'affine arguments. Calls with the wrong number, shape or kind of '
  'arguments, with NaN, or with variables in place of parameters are '
  'refused. Calls do not alter the program.',
  over=['inputs', 'configurations', 'histories'],
  q='All layouts of formals, programs, arguments and sequences of calls.',
  why='The tests call no program with formal arguments.',
  files=['src/pydsm/cvxpy_tdr/programs.py',
         'src/pydsm/cvxpy_tdr/procedures'],
  mech=[('cvxpy_program.__call__, _pm_expand',
         'src/pydsm/cvxpy_tdr/programs.py'),
        ('re_eval', 'src/pydsm/cvxpy_tdr/procedures/re_eval.py'),
        ('expand', 'src/pydsm/cvxpy_tdr/procedures/expand.py')],
  technique=TV,
  note='Random programs (weighted sums of absolute values of bilinear '
  'forms) over 17 layouts of formals, whose value the specification finds '
  'at the corners; TLC checks convexity and optimality on a grid; sessions '
  'of 4 calls or programs.'),
dict(id='W01', title='Deprecated and alternative entry points agree with '
  'what replaces them',
  statement='Every deprecated entry point (utilities.db and cplxpair, '
  'NTFdesign.delsig.synthesizeNTF, synthesizeChebyshevNTF and clans, the '
  'synthesize_* functions, q0_from_noise_weighting, '
  'quantization_weighted_noise_gain, the module filter_based) delivers, for '
  'the same arguments, given in order or by name or omitted, the results '
  'and the exceptions of the function that replaces it, with the documented '
  'defaults, and emits PyDsmDeprecationWarning at every call; functions '
  'that are not deprecated never emit it. Functions of filters deliver the '
  'same for a filter given as zpk, ba, impulse response or magnitude, namely '
  'the noise gain sum |h*ntf|^2 and the autocorrelation of the impulse '
  'response, and raise ValueError for other kinds.',
  over=['inputs', 'configurations'],
  q='All arguments, all ways of giving them.',
  why='No test calls the deprecated functions with other than a couple of '
  'arguments, so a swapped or dropped argument stays unseen.',
  files=['src/pydsm/utilities.py', 'src/pydsm/NTFdesign',
         'src/pydsm/simulation.py'],
  mech=[('db, cplxpair', 'src/pydsm/utilities.py'),
        ('aliases', 'src/pydsm/NTFdesign/delsig.py'),
        ('filters', 'src/pydsm/NTFdesign/filter_based.py'),
        ('legacy functions', 'src/pydsm/NTFdesign/legacy'),
        ('aliases', 'src/pydsm/NTFdesign/psychoacoustic.py'),
        ('aliases', 'src/pydsm/NTFdesign/weighting'),
        ('alias', 'src/pydsm/NTFdesign/minmax/_fir_minmax.py')],
  technique=TV,
  note='Table of the interface with documented defaults in the '
  'specification; calls with subsets of the arguments; exact responses of '
  'filters by TLC.'),
dict(id='V01', title='Omitted arguments take the documented defaults',
  statement='Calling any public function with optional arguments omitted, or '
  'given by name in any number, delivers the results and exceptions of the '
  'call with all the arguments in order, where the omitted ones have their '
  'documented defaults; it delivers the same again at the next call; '
  'arguments that are not in the signature raise TypeError; no '
  'deprecation warnings.',
  over=['inputs', 'configurations'],
  q='All functions, all subsets of the arguments.',
  why='Tests call the functions in one way each; default values are part of '
  'the documented interface.',
  files=['src/pydsm'],
  mech=[('delsig functions', 'src/pydsm/delsig'),
        ('design functions', 'src/pydsm/NTFdesign'),
        ('weightings', 'src/pydsm/audio_weightings.py'),
        ('equal loudness', 'src/pydsm/iso226.py'),
        ('transforms', 'src/pydsm/ft.py'),
        ('impulse responses', 'src/pydsm/ir.py'),
        ('relab', 'src/pydsm/relab.py'),
        ('utilities', 'src/pydsm/utilities.py')],
  technique=TV,
  note='Table of 54 functions with documented defaults in the '
  'specification; TLC enumerates the calls and compares the two ways.'),
dict(id='U01', title='Axis labels and pole-zero plots show what they are given',
  statement='axisLabels labels the points of indexes start, start+step, ... '
  'with six significant digits, those under 1e-6 in size with 0, refuses '
  'other increments with TypeError and leaves its arguments unchanged. '
  'plotPZ draws on the current axes every pole with an x and every zero with '
  'an o, in the given colours and size, not joined by lines, with the unit '
  'circle and the axes across the plot; with showlist it lists the roots of the upper half '
  'plane to four decimals; transfer functions in zpk and nd form give the '
  'same plot; roots that are not in conjugate pairs raise ValueError.',
  over=['inputs', 'configurations'],
  q='All points, increments, transfer functions and options.',
  why='Plots are not tested at all.',
  files=['src/pydsm/delsig/_axisLabels.py', 'src/pydsm/delsig/_plot.py'],
  mech=[('axisLabels', 'src/pydsm/delsig/_axisLabels.py'),
        ('plotPZ', 'src/pydsm/delsig/_plot.py')],
  technique=TV,
  note='The artists left on a figure of matplotlib are the trace that is '
  'validated.'),
dict(id='U02', title='test() and bench() run what is asked and report failures',
  statement='test() and bench() of the package and of its subpackages run '
  'pytest once on the subpackage, or on the given tests (one or a list), '
  'leaving out benchmarks (tests), slow tests unless label is full, or those '
  'not selected by a label; verbosity, doctests, durations and extra '
  'arguments are passed on; the result is True exactly when pytest '
  'succeeds, also when it exits.',
  over=['inputs', 'configurations'],
  q='All combinations of arguments.',
  why='The runner cannot test itself: if it runs the wrong tests or reports '
  'success wrongly every result of the tests is void.',
  files=['src/pydsm/_pytesttester.py'],
  mech=[('PytestTester', 'src/pydsm/_pytesttester.py'),
        ('test, bench', 'src/pydsm/__init__.py')],
  technique=TV,
  note='pytest.main is replaced by a recorder, what it gets is read by the '
  'option parser of pytest itself.'),
]

NOT_APPLICABLE = {}
