#!/usr/bin/env python3
"""Writes known_findings.json: the findings left open and the fixed ones."""
import json, os, subprocess
FIXED = [  # property, subject of the commit, what failed
 ('M02', 'scipy simulateDSM backend failed to store states', 'scipy engine, store_xn with order 2 or more: ValueError'),
 ('M01', 'scipy simulateDSM backend failed on multiple inputs', 'scipy engine, 2-input ABCD modulator: ValueError'),
 ('M01', 'simulateDSM rejected multiple quantizers', 'ABCD with two quantizers: rejected or wrong in every engine'),
 ('M06', 'compiled simulateDSM backends accept any array_like', 'compiled engines, u given as a list or as integers: error'),
 ('M06', 'scipy simulateDSM backend validates its arguments', 'scipy engine accepted malformed nlev, u and x0'),
 ('M04', 'final state of first order modulators rejected', 'order 1: final state (0-d) rejected as x0'),
 ('O01', 'idtft_hermitian ignored its own default options', 'changing idtft_hermitian.default_options had no effect'),
 ('O01', 'ntf_hybrid_weighting ignored its own default options', 'changing ntf_hybrid_weighting.default_options had no effect on the optimizers'),
 ('O01', 'default options of different functions shared', 'changing the sub-options of a function changed those of another'),
 ('O01', 'synthesize_ntf_from_filter dropped its default quad_opts', 'default quad_opts changed on synthesize_ntf_from_filter were ignored'),
 ('O01', 'ntf_fir_audio_weighting ignored its own default options', 'changing ntf_fir_audio_weighting.default_options had no effect'),
 ('O01', 'feasibility tolerance ignored by the picos modeler', "modeler='picos', cvxopt_opts={'feastol': ...} had no effect"),
 ('M07', 'ds_quantize failed on scalars', 'ds_quantize(0.3, 2): TypeError'),
 ('C01', 'cplxpair failed on integers', 'cplxpair([-2j,-1j,2j,1j]) not in pairs; cplxpair([3,1,2]) AttributeError; cplxpair([1-1e6j,1+1e-9+1j]) never ended; cplxpair([[1,1j],[2,-1j]]) lost imaginary parts'),
('B01', 'undbm failed on lists', 'undbm([1, 2]): TypeError'),
 ('B01', 'eps was not the distance', 'eps(3.) was 6.7e-16 rather than 4.4e-16'),
 ('S02', 'synthesizeChebyshevNTF failed on bandpass', 'synthesizeChebyshevNTF(4, 32, f0=0.25): TypeError'),
 ('S02', 'synthesizeChebyshevNTF missed H_inf', 'synthesizeChebyshevNTF(3, 128, H_inf=2): peak gain 1.71; (1, 4, H_inf=1.1): 1.54'),
 ('Z01', 'optimized zeros for order 10 were those for order 8', 'ds_optzeros(10, 1)'),
 ('B02', 'loudness level from sound pressure level', 'tabled_L_N(tabled_L_p(40)) far from 40'),
 ('B02', 'wrong pole in the A-weighting filter', 'a_zpk not matching a_weighting (0.3% at 100 Hz)'),
 ('D02', 'zero pre-assignment in bandpass minmax designs', "ntf_fir_minmax(6, 16, f0=0.2, zf=True, modeler='cvxpy' or 'picos'): error"),
 ('D02', 'zero pre-assignment in minmax designs failed at f0=0.5', 'ntf_fir_minmax(6, 16, f0=0.5, zf=True): error'),
 ('D02', 'minmax designs failed with cvxpy when the chol', "ntf_fir_minmax(6, 16, modeler='cvxpy'): SolverError"),
 ('D01', 'FIR designs of order 1 failed', "ntf_fir_weighting(1, w): error with modelers cvxpy_old and picos"),
 ('D02', 'FIR designs of order 1 failed', "ntf_fir_minmax(1): error with modelers cvxpy_old and picos"),
 ('D03', "Dunn's optimal zeros for order 7", 'dunn_optzeros(7) returned 8 zeros; ntf_dunn(7): ValueError'),
 ('H01', 'changing the tables returned by iso226', 'tabled_f()[0] = 0 changed all the later results'),
 ('H01', 'cvxpy_tdr left the global options', "ntf_fir_weighting(3, w) changed cvxopt.solvers.options"),
 ('W01', 'ntf_dunn went through a deprecated alias', 'ntf_dunn() emitted PyDsmDeprecationWarning'),
 ('F01', 'dtft_hermitian rejected lists', 'dtft_hermitian([1, 2]): AttributeError; dtft_hermitian(array([1, 1j])) ignored 1j'),
 ('F01', 'idtft_hermitian ignored the imaginary part', 'idtft_hermitian(lambda f: exp(-2j*pi*f), [0, 1])'),
 ('F01', 'documented results of fft_centered and raw_xcorr', 'documentation only: order of the results of fft_centered'),
 ('K01', 'documented results of fft_centered and raw_xcorr', 'documentation only: roles of x and y in raw_xcorr'),
 ('S01', 'synthesizeNTF missed H_inf for high orders', 'synthesizeNTF(8, 32, 1, 1.1): far-end gain 1.155; synthesizeNTF(2, 4, 0, 2, 0.25): ValueError'),
 ('S01', 'synthesizeNTF returned half the poles', 'synthesizeNTF(4, 32, [1j, -1j, 1j, -1j], 1.5, 0.25): two poles only'),
 ('S03', 'clans failed or got stuck', 'clans(4, 16, 1, .8, 1): LinAlgError; clans(2, 64, 1, .8, 1) far from the optimum'),
 ('S03', 'clans silently returned NTFs', 'clans(3, 4, 3, .8, 0): 1-norm 111 with 3 levels, no warning'),
 ('Z02', 'spread_fir_uc_zeros failed for order 1', 'spread_fir_uc_zeros(1, 8, f): ValueError; (5, 4, in-band noise): noise 1.76 times the optimum'),
 ('X01', 'operations on sparse matrices in cvxpy_tdr', 'sparse matrix operands: AttributeError'),
 ('X01', 'cvxpy_tdr.spmatrix failed', 'spmatrix products and differences: AttributeError'),
 ('U02', 'test() split a single test', "pydsm.test(tests='pydsm.relab') asked pytest for 'p', 'y', 'd', ..."),
 ('X01', 'cvxpy_tdr difference of a sparse and a dense', 'sparse - array: wrong sign outside of the stored entries'),
 ('X01', 'cvxpy_tdr.reshape of object arrays', 'reshape(variable(2, 2), (4, 1)): IndexError'),
 ('X03', 'cvxpy_tdr programs used as functions could not take', 'P(x + 1) with x the formal of P: RecursionError; Q(y, x) with formals x, y: wrong'),
 ('X03', 'cvxpy_tdr programs whose objective is constant', 'program(minimize(4), [x >= 1], formals=[x])(z) + z: Objects not comparable'),
 ('X03', 'cvxpy_tdr programs used more than once', 'minimize P(z - 1) + 2*P(z - 5): 6 rather than 3.625'),
 ('X03', 'cvxpy_tdr programs with a constant objective', 'program(minimize(5)).solve() gave 0'),
 ('X03', 'cvxpy_tdr smooth constraints', 'minimize -x + kl_div((x, y), (y, x)) over x + y = 2: -0.963 rather than -1.062, status valid'),
 ('X03', 'cvxpy_tdr.power_p never returned', 'power_p(0, 2): endless loop'),
 ('X04', 'programs with parameters of their own', 'program(minimize(abs(f-w)), [w >= p], formals=[f]) used in another program: TypeError'),
 ('M01', 'compiled simulateDSM backends failed on order 0', 'simulateDSM(u, [[1, 1]]): garbage, from uninitialized memory, and errors of DGEMV on the terminal'),
 ('H02', 'cvxpy_tdr solves in different threads', 'ntf_fir_weighting in two threads: a solve with the options of the other, cvxopt.solvers.options left changed'),
    ('K01', 'correlations of integer samples overflowed', 'raw_acorr(np.array([30000, 30000], np.int16), 0)'),
    ('E01', 'evalTF and evalRPoly overflowed with integer points', 'evalTF(([3]*25, [1]), 6), evalRPoly on int8 arrays'),
    ('B01', 'decibel conversions of small integer types lost precision or overflowed', 'dbm(np.int16(30000)), dbv(np.int8(3)) with the precision of float16'),
    ('B02', 'audio weightings overflowed on integer frequencies', 'a_weighting(np.array([20000], np.int32))'),
    ('M07', 'ds_quantize overflowed on small integer types', 'ds_quantize(np.array([127], np.int8), 201)'),
    ('A01', 'shiftdim took away empty leading dimensions', 'shiftdim(np.zeros((0, 2, 2)))'),
 ('U01', 'imaginary axis of pole-zero plots misplaced', 'plotPZ(([3, 1], [-.5], 1)): the imaginary axis went from the upper limit of the real axis to the lower one of the imaginary axis'),
]
EXTRA = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'open_findings.json')
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'],
                     capture_output=True, text=True).stdout.split('\n')
out, used = [], set()
for p, s, w in FIXED:
    h = [l.split()[0] for l in log if l[len(l.split(' ')[0])+1:].startswith('fix: ' + s)]
    assert len(h) == 1, (s, h)
    used.add(h[0])
    out.append('fixed: property=%s %s %s' % (p, h[0], w))
left = [l for l in log if ' fix: ' in l and l.split()[0] not in used]
if left:
    print('UNRECORDED', left)
op = json.load(open(EXTRA)) if os.path.exists(EXTRA) else []
with open('/verif/known_findings.json', 'w') as h:
    json.dump({'findings': op, 'fixed': out}, h, indent=1)
    h.write('\n')
