"""Driver: sessions of calls to services without memory (H01).

Every session runs in a child forked from a process that has imported the
package and called nothing; so does the single call that each answer is
compared with."""
import copy
import json
import os
import signal
import sys
import warnings

import numpy as np

from drvlib import Trace, check_origin, dec, rng, same, scenarios, QUICK

check_origin()
import cvxopt
import cvxopt.solvers
import cvxpy
import picos
import scs
import matplotlib
matplotlib.use('Agg')
import pydsm
from pydsm import (audio_weightings as aw, correlations as co, cvxpy_tdr as ct,
                   delsig as ds, ft, ir, iso226 as iso, relab, simulation,
                   utilities as ut)
from pydsm.NTFdesign import (ntf_schreier, ntf_dunn, ntf_fir_weighting,
                             ntf_fir_minmax, ntf_hybrid_weighting,
                             ntf_fir_audio_weighting, quantization_noise_gain,
                             mult_weightings, helpers, psychoacoustic)
from pydsm.NTFdesign import delsig as ndelsig, filter_based as fb
from pydsm.NTFdesign import legacy, ntf_chebyshev, ntf_clans, weighting
from pydsm.NTFdesign.weighting import ntf_fir_from_q0, q0_weighting
import pydsm.NTFdesign.weighting._fir_weighting_cvxpy
import pydsm.NTFdesign.weighting._fir_weighting_cvxpy_tdr
import pydsm.NTFdesign.weighting._fir_weighting_picos
import pydsm.NTFdesign.minmax._fir_minmax_cvxpy
import pydsm.NTFdesign.minmax._fir_minmax_cvxpy_tdr
import pydsm.NTFdesign.minmax._fir_minmax_picos
import pydsm.delsig._simulateDSM_scipy as sim_scipy
try:
    import pydsm.delsig._simulateDSM_cblas as sim_blas
except ImportError:
    import pydsm.delsig._simulateDSM_scipy_blas as sim_blas

A = np.array
U = .4*np.sin(np.arange(40)*.3)
NTF = (A([1., 1.]), A([.6+.2j, .6-.2j]), 1.)
NTF3 = (A([1., np.exp(.1j), np.exp(-.1j)]), A([.7, .6+.2j, .6-.2j]), 1.)
ABCD = A([[1., 0, 1, -1], [1, 1, 0, -2], [0, 1, 0, 0]])
Q = A([1., .6, .3, .1])
w1 = lambda f: 1. if f < .1 else .01
w2 = lambda f: 1/(1+(20*f)**2)
quiet = {'show_progress': False}


def scs_kw():
    return {'modeler': 'cvxpy', 'show_progress': False,
            'cvxpy_opts': {'solver': 'scs'}}


def prog(k):
    x = ct.variable(3, 1, name='x')
    a = ct.matrix([[1.], [-2.], [.5]])
    if k == 0:
        p = ct.program(ct.minimize(ct.norm2(x-a)), [ct.geq(x, -1)])
    elif k == 1:
        p = ct.program(ct.minimize(ct.norm2(x-a)), [ct.geq(x, 0)])
    elif k == 2:
        p = ct.program(ct.minimize(ct.norm1(x-a)), [ct.leq(x, 0)])
    elif k == 3:
        p = ct.program(ct.maximize(ct.min(x)), [ct.leq(ct.norm2(x-a), 1)])
    elif k == 4:
        p = ct.program(ct.minimize(ct.norm2(x)), [ct.geq(x, 1), ct.leq(x, 0)])
    else:
        p = ct.program(ct.maximize(ct.norm2(x)), [ct.leq(x, 1)])
    v = p.solve(quiet=True)
    return [float(v)]+([float(x[i, 0].value) for i in range(3)]
                       if k < 4 else [])


def line(k):
    m = ct.matrix([[1., 2.], [3., 4.]])
    x = ct.variable(2, 2, 'symmetric' if k == 1 else None, name='x')
    for i in range(2):
        for j in range(2):
            x[i, j].value = 1.+i+j
    if k == 0:
        return (m*x+1).value
    if k == 1:
        return (x*m-2).value
    if k == 2:
        s = ct.spmatrix((2, 2))
        s[0, 1] = 3.
        return [(s*m)[i, j] for i in range(2) for j in range(2)]
    return ct.hstack((m, x)).value


def splines(*a, **k):
    return iso.iso226_spl_itpl(*a, **k)(A([100., 1234., 9e3]))


F = {}


def fam(name, tol, *calls):
    F[name] = (tol, calls)


C = lambda f, *a, **k: (lambda: (f, list(a), dict(k)))
fam('sim', 1e-9, *[(lambda u=u, s=s, k=k: (ds.simulateDSM, [
    u.copy(), copy.deepcopy(s)], copy.deepcopy(k))) for u, s, k in (
    (U, NTF, {}), (U, NTF3, {}), (U*.5, NTF, {}), (U, ABCD, {}),
    (U, NTF, {'nlev': 3}), (U, NTF, {'x0': A([.1, -.1])}),
    (U, NTF, {'store_xn': True, 'store_xmax': True, 'store_y': True}),
    (U, A([[1., 1]]), {}))])
fam('sims', 1e-9, *[(lambda u=u, s=s, k=k: (sim_scipy.simulateDSM, [
    u.copy(), copy.deepcopy(s)], copy.deepcopy(k))) for u, s, k in (
    (U, NTF, {}), (U, NTF3, {}), (U, ABCD, {'nlev': 3}),
    (U, NTF, {'x0': A([.1, -.1])}))])
fam('simb', 1e-9, *[(lambda u=u, s=s, k=k: (sim_blas.simulateDSM, [
    u.copy(), copy.deepcopy(s)], copy.deepcopy(k))) for u, s, k in (
    (U, NTF, {}), (U, NTF3, {}), (U, ABCD, {'nlev': 3}),
    (U, NTF, {'x0': A([.1, -.1])}))])
fam('quantize', 1e-12, lambda: (simulation.ds_quantize, [A([.3, 2.2, -5]), 4],
                                {}),
    lambda: (simulation.ds_quantize, [A([.3, 2.2, -5]), 3], {}),
    lambda: (simulation.ds_quantize, [A([[.3], [2.2]]), A([[2], [3]])], {}))
X = np.exp(1j*np.linspace(0, 3, 5))
fam('evaltf', 1e-9, lambda: (ds.evalTF, [copy.deepcopy(NTF), X.copy()], {}),
    lambda: (ds.evalTF, [copy.deepcopy(NTF3), X.copy()], {}),
    lambda: (ds.evalTF, [(A([1., -.5]), A([1., .2])), X.copy()], {}),
    lambda: (ds.evalRPoly, [A([.5, .2+.1j, .2-.1j]), X.copy(), 2.], {}))
fam('schreier', 1e-6, C(ds.synthesizeNTF, 3, 32, 0), C(
    ds.synthesizeNTF, 4, 32, 0), C(ds.synthesizeNTF, 3, 16, 0), C(
    ds.synthesizeNTF, 3, 32, 1), C(ds.synthesizeNTF, 3, 32, 0, 2.), C(
    ds.synthesizeNTF, 4, 32, 1, 1.5, .2), C(ds.synthesizeNTF, 3, 32, 1, 1.5,
                                            .2), C(ntf_schreier))
fam('cheby', 1e-6, C(ds.synthesizeChebyshevNTF, 3, 32), C(
    ds.synthesizeChebyshevNTF, 4, 32), C(ds.synthesizeChebyshevNTF, 3, 16),
    C(ds.synthesizeChebyshevNTF, 3, 32, 0, 2.), C(
    ds.synthesizeChebyshevNTF, 3, 32, 0, 1.5, .2))
fam('clans', 1e-5, C(ds.clans, 3, 32, 3), C(ds.clans, 2, 32, 3), C(
    ds.clans, 3, 32, 3, .9, 1), C(ds.dsclansNTF, A([.3, .4, .5]), 3, .9,
                                  A([1., 1., 1.])))
fam('optzeros', 1e-12, C(ds.ds_optzeros, 4), C(ds.ds_optzeros, 5), C(
    ds.ds_optzeros, 4, 2), C(ds.ds_f1f2, 32, .1))
fam('pad', 1e-12, lambda: (ds.padl, [A([1., 2]), 4], {}),
    lambda: (ds.padl, [A([1., 2]), 4, 7], {}),
    lambda: (ds.padr, [A([1., 2]), 4], {}),
    lambda: (ds.padt, [A([[1., 2]]), 3], {}),
    lambda: (ds.partitionABCD, [ABCD.copy()], {}))
fam('rms', 1e-9, lambda: (ds.rms, [U.copy()], {}),
    lambda: (ds.rms, [U+1], {}), lambda: (ds.rms, [U+1, True], {}),
    lambda: (ds.rmsGain, [copy.deepcopy(NTF), 0, .1], {}))
fam('dbs', 1e-12, lambda: (ds.dbv, [A([1., 2, 0])], {}),
    lambda: (ds.dbv, [A([3., 2, 1])], {}), lambda: (ds.dbp, [A([1., 2])], {}),
    lambda: (ds.undbv, [A([1., 2])], {}),
    lambda: (ds.dbm, [A([1., 2]), 75.], {}),
    lambda: (relab.db, [A([1., 2]), 'power'], {}))
fam('relab', 1e-12, lambda: (relab.cplxpair, [A([1j, 1, -1j])], {}),
    lambda: (relab.cplxpair, [A([1j, 1, 1j])], {}),
    lambda: (relab.shiftdim, [A([[[1., 2]]])], {}),
    lambda: (relab.shiftdim, [A([[1., 2]]), 1], {}),
    lambda: (relab.eps, [3.], {}), lambda: (ut.chop, [A([1e-20, 1])], {}),
    lambda: (ut.mdot, [np.eye(2), A([[1., 2], [3, 4]]), np.ones((2, 1))], {}))
fam('ir', 1e-9, lambda: (ir.impulse_response, [copy.deepcopy(NTF)], {}),
    lambda: (ir.impulse_response, [copy.deepcopy(NTF3)], {}),
    lambda: (ir.impulse_response, [copy.deepcopy(NTF), 9], {}),
    lambda: (ir.guess_ir_length, [copy.deepcopy(NTF), 60], {}))
fam('corr', 1e-9, lambda: (co.raw_acorr, [U[:9].copy(), 4], {}),
    lambda: (co.raw_acorr, [U[:9].copy(), 6], {}),
    lambda: (co.raw_xcorr, [U[:9].copy(), U[3:9].copy(), 4], {}),
    lambda: (co.raw_xcorr, [U[3:9].copy(), U[:9].copy(), 4], {}))
T5 = np.linspace(-.5, .5, 5)
fam('ft', 1e-7, lambda: (ft.fft_centered, [U.copy()], {}),
    lambda: (ft.fft_centered, [U.copy(), 2.], {}),
    lambda: ([ft.dtft, T5], [U[:6].copy()], {}),
    lambda: ([ft.dtft, T5], [U[:6].copy(), 1, 2], {}),
    lambda: (ft.idtft_hermitian, [w2, A([0, 1, 2])], {}),
    lambda: (ft.idtft, [w2, A([0, 1])], {'quad_opts': {'limit': 60}}))
fam('gain', 1e-7, lambda: (quantization_noise_gain, [copy.deepcopy(NTF), w2],
                           {}),
    lambda: (quantization_noise_gain, [copy.deepcopy(NTF3), w2], {}),
    lambda: (quantization_noise_gain, [copy.deepcopy(NTF), w1],
             {'quad_opts': {'points': [.1]}}),
    lambda: (quantization_noise_gain, [copy.deepcopy(NTF), w2, (0, .2)], {}),
    lambda: (quantization_noise_gain, [copy.deepcopy(NTF), w2],
             {'avg': True}),
    lambda: (quantization_noise_gain, [copy.deepcopy(NTF)], {}))
fam('q0', 1e-7, C(q0_weighting, 3, w2), C(q0_weighting, 5, w2),
    lambda: (q0_weighting, [3, w1], {'quad_opts': {'points': [.1]}}),
    lambda: (q0_weighting, [3, copy.deepcopy(NTF)], {}))
F5 = np.linspace(.01, .5, 5)
fam('mult', 1e-9, lambda: ([mult_weightings, F5], [w2, NTF], {}),
    lambda: ([mult_weightings, F5], [w2, NTF3], {}),
    lambda: ([mult_weightings, F5], [w2, w2], {}))
noise = lambda H, osr=8, N=50: ds.rmsGain(H, 0, .5/osr, N)
fam('helpers', 1e-4, C(helpers.maxflat_fir_zeros, 3, 1e3), C(
    helpers.maxflat_fir_zeros, 2, 1e3), C(helpers.maxflat_fir_zeros, 3, 1e4),
    C(helpers.spread_fir_uc_zeros, 2, 8, noise),
    lambda: (helpers.spread_fir_uc_zeros, [2, 16, noise],
             {'cf_args': [16]}))
fam('digest', 0, lambda: (dig, [{'a': 1}, {'a': 2, 'b': 3}, ['a']], {}),
    lambda: (dig, [{'a': 1, 'c': 5}, {'a': 2, 'b': 3}, ['a']], {}),
    lambda: (dig, [{'m': {'x': 1}}, {'m': {'x': 2, 'y': 3}}, [], ['m']], {}),
    lambda: (dig, [{}, {'m': {'x': 2, 'y': 3}}, [], ['m']], {}))
fam('audio', 1e-12, C(aw.a_weighting, 100.), C(aw.a_weighting, 200.), C(
    aw.a_weighting, 100., False), C(aw.b_weighting, 100.), C(
    aw.c_weighting, A([10., 100.])), C(aw.f_weighting, 100., True, False))
fam('iso', 1e-12, C(iso.tabled_L_p, 40), C(iso.tabled_f), C(
    iso.tabled_alpha_f), C(iso.tabled_L_U), C(iso.tabled_T_f), C(
    iso.tabled_L_N, 40), C(iso.iso226_spl_contour), C(
    iso.iso226_spl_contour, 60, True), C(iso.iso226_spl_contour, 99))
fam('dunn', 1e-6, C(ntf_dunn, 3), C(ntf_dunn, 4), C(
    psychoacoustic.dunn_optzeros, 3), C(psychoacoustic.dunn_optzeros_cplx, 3,
                                        32), C(psychoacoustic.dunn_optzeros,
                                               12))


def poly(v):
    return [np.real(np.poly(v[0])), np.real(np.poly(v[1])), v[2]]


def D(f, *a, **k):
    return lambda: ([f, poly], copy.deepcopy(list(a)), copy.deepcopy(k))


cq = {'cvxopt_opts': {'maxiters': 60, 'reltol': 1e-5}}
fam('firold', 1e-5, D(ntf_fir_from_q0, Q, **quiet),
    D(ntf_fir_from_q0, Q, 2., **quiet),
    D(ntf_fir_from_q0, Q, normalize=None, **quiet),
    D(ntf_fir_from_q0, Q[:3], **quiet),
    D(ntf_fir_from_q0, Q, **dict(quiet, **cq)),
    D(ntf_fir_weighting, 3, w2, **quiet),
    D(ntf_fir_from_q0, Q, normalize=10., **quiet),
    D(ntf_fir_from_q0, Q, fix_pos=False, **quiet),
    D(ntf_fir_weighting, 3, w2, normalize=10., **quiet),
    D(ntf_fir_from_q0, Q, modeler='none', **quiet))
cv = dict(quiet, modeler='cvxpy')
fam('fircvx', 1e-5, D(ntf_fir_from_q0, Q, **cv),
    D(ntf_fir_from_q0, Q, **dict(cv, **cq)),
    D(ntf_fir_from_q0, Q, **scs_kw()),
    D(ntf_fir_from_q0, Q, **dict(cv, cvxpy_opts={
        'override_kktsolver': False, 'solver': 'cvxopt'})),
    D(ntf_fir_weighting, 3, w2, **cv))
pc = dict(quiet, modeler='picos')
fam('firpicos', 1e-5, D(ntf_fir_from_q0, Q, **pc),
    D(ntf_fir_from_q0, Q, **dict(pc, **cq)),
    D(ntf_fir_from_q0, Q, normalize=10., **pc),
    D(ntf_fir_from_q0, Q, .8, **pc))
fam('hybrid', 1e-5, D(ntf_hybrid_weighting, 3, w2, **quiet),
    D(ntf_hybrid_weighting, 3, w2, poles=[.5], **quiet),
    D(ntf_hybrid_weighting, 3, w2, poles=A([.5, -.2]), **quiet),
    D(ntf_hybrid_weighting, 1, w2, poles=[.5, .2], **quiet),
    D(ntf_hybrid_weighting, 3, w2, normalize=10., poles=[.5], **quiet),
    D(ntf_hybrid_weighting, 3, w2, poles=[.5], **cv))
fam('minmaxold', 1e-4, D(ntf_fir_minmax, 3, 16, **quiet),
    D(ntf_fir_minmax, 4, 16, **quiet), D(ntf_fir_minmax, 3, 32, **quiet),
    D(ntf_fir_minmax, 3, 16, f0=.25, **quiet),
    D(ntf_fir_minmax, 3, 16, zf=True, H_inf=3., **quiet),
    D(ntf_fir_minmax, 3, [16, 32], f0=[0, .3], **quiet))
fam('minmaxcvx', 1e-4, D(ntf_fir_minmax, 3, 16, **cv),
    D(ntf_fir_minmax, 3, 16, **dict(cv, **cq)),
    D(ntf_fir_minmax, 3, 16, **pc))
fam('firaudio', 1e-5, D(ntf_fir_audio_weighting, 3, 16, **quiet),
    D(ntf_fir_audio_weighting, 3, 32, **quiet),
    D(ntf_fir_audio_weighting, 3, 16, 'a', **quiet),
    D(ntf_fir_audio_weighting, 3, 16, max_attn=60, **quiet))
fam('old', 1e-6, C(ndelsig.synthesizeNTF, 3, 32), lambda: (
    ut.cplxpair, [A([1j, -1j])], {}), lambda: (
    fb.quantization_noise_gain, [copy.deepcopy(NTF), copy.deepcopy(NTF3)],
    {}), lambda: (fb.q0_from_filter, [3, A([1., .5, .2]), 'imp'], {}),
    lambda: (legacy.q0_from_filter_ir, [3, A([1., .5, .2])], {}),
    lambda: (ut.db, [A([1., 2])], {}))
fam('allzeros', 1e-12, *[C(ds.ds_optzeros, n, o)
                        for n, o in zip([1, 2, 3, 6, 7, 8, 9, 10, 11, 12, 13,
                                         14, 6, 7], [1]*12+[2]*2)])
fam('oldies', 1e-6, C(ndelsig.synthesizeChebyshevNTF, 3, 32),
    C(ds._synthesizeNTF0.synthesizeNTF0, 3, 32, A([.01, -.01, 0]), 1.5, 0),
    C(ds.synthesizeNTF, 4, 32, 3),
    C(ds.synthesizeNTF, 3, 32, A([.01, -.01, 0])),
    C(ntf_chebyshev, 3, 32), C(ntf_clans, 2, 32, 3, .9),
    lambda: (fb.quantization_noise_gain_by_conv, [
        copy.deepcopy(NTF), copy.deepcopy(NTF3)], {}),
    lambda: (fb.synthesize_ntf_from_filter, [3, copy.deepcopy(NTF)],
             {'show_progress': False}),
    C(psychoacoustic.synthesize_ntf_dunn, 3),
    lambda: (weighting.quantization_weighted_noise_gain, [
        copy.deepcopy(NTF), w2], {}),
    C(weighting.q0_from_noise_weighting, 3, w2),
    C(weighting.synthesize_ntf_from_q0, Q, show_progress=False))
fam('small', 1e-9, lambda: (ds.padb, [A([[1., 2]]), 3], {}),
    lambda: (ds.padb, [A([1., 2]), 3, 7], {}),
    lambda: (ds.undbp, [A([1., 2])], {}), lambda: (ds.undbm, [A([1., 2])], {}),
    lambda: (ds.dbv, [A([1, 2, 0])], {}),
    lambda: (ds.axisLabels, [A([1., 2, 3, 4]), 2], {}),
    lambda: (ut.is_negligible, [A([1., 1e-20])], {}),
    lambda: ([ft.dtft_hermitian, T5], [A([1., 2, .5])], {}),
    lambda: ([ft.dtft_hermitian, T5], [A([1., 2, .5]), 3], {}),
    C(aw.d_weighting, A([10., 100.])), C(aw.d_weighting, 100., False),
    C(splines, 40), C(splines, 60), C(splines, 40, True), C(splines, 40, k=1),
    C(iso.tabled_A_f, 40), C(iso.tabled_B_f, A([60.]*29)),
    C(iso.tabled_A_f, 60, True))
fam('atoms', 1e-6, *[lambda f=f: (
    lambda x, f: f(x).value if hasattr(f(x), 'value') else f(x),
    [ct.matrix([[2.], [1.], [.5]]), f], {}) for f in (
        ct.abs, ct.geo_mean, ct.square, ct.huber, ct.log, ct.max,
        ct.norm_inf, ct.log_sum_exp, ct.sqrt, ct.exp)])
fam('modeling', 1e-5, *[C(prog, k) for k in range(6)])
fam('linear', 1e-9, *[C(line, k) for k in range(4)])


def dig(o, d, *a):
    return sorted(repr(x) for x in ut.digested_options(
        copy.deepcopy(o), d, *a).items())


def flat(v, out):
    if v is None:
        out.append('none')
    elif isinstance(v, str):
        out.append(v)
    elif isinstance(v, (list, tuple)):
        for x in v:
            flat(x, out)
    elif isinstance(v, dict):
        for k in sorted(v):
            out.append(k)
            flat(v[k], out)
    else:
        a = np.asarray(v)
        if a.dtype == object:
            out.append(repr(type(v)))
            return
        for d in a.shape:
            out.append(dec(d))
        for x in a.reshape(-1):
            if np.iscomplexobj(a):
                out += [dec(x.real), dec(x.imag)]
            else:
                out.append(dec(x))


def overwrite(v):
    """What the owner of an object may do with it."""
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.dtype != object:
            v[...] = 77
    elif isinstance(v, list):
        for x in v:
            overwrite(x)
        v[:] = ['scribble']
    elif isinstance(v, tuple):
        for x in v:
            overwrite(x)
    elif isinstance(v, dict):
        for x in v.values():
            overwrite(x)
        v.clear()
        v['scribble'] = 77


# Functions with default options
OPTIONS = []
for _k, _m in sorted(sys.modules.items()):
    if _k.startswith('pydsm.'):
        for _v in list(vars(_m).values()):
            if type(_v) is type(dig) and hasattr(_v, 'default_options') and \
                    _v not in OPTIONS:
                OPTIONS.append(_v)


def marks(tdr_only):
    m = {'errors': repr(np.geterr()), 'errcall': repr(np.geterrcall()),
         'random': repr(np.random.get_state()[1:3]) +
         str(np.random.get_state()[1].sum()),
         'cwd': os.getcwd(), 'filters': repr(warnings.filters[:4]) +
         str(len(warnings.filters)),
         'print': repr(sorted(np.get_printoptions().items(), key=str)),
         'recursion': sys.getrecursionlimit(),
         'backend': matplotlib.get_backend()}
    m['defaults'] = repr([(f.__qualname__, f.default_options)
                          for f in OPTIONS])
    import random
    m['pyrandom'] = hash(random.getstate())
    if tdr_only:
        m['solvers'] = repr(sorted(cvxopt.solvers.options.items()))
    return m


class Late(BaseException):
    pass


def late(*a):
    raise Late()


def one(call):
    """A call in a session: record, objects to overwrite."""
    name, k = call
    tol, calls = F[name]
    f, args, kw = calls[k-1]()
    # the catalogue must not be altered by what callers do
    args, kw = copy.deepcopy((args, kw))
    post = None
    if isinstance(f, list):
        f, post = f
    keep = copy.deepcopy((args, kw))
    # picos is known to change the options of cvxopt
    uses_picos = kw.get('modeler') == 'picos'
    m0 = marks(not uses_picos)
    exc, y, v = '', [], None
    shown = []
    old = warnings.showwarning
    warnings.showwarning = lambda msg, cat, *a, **k: shown.append(
        cat.__name__) if cat.__name__ == 'PyDsmDeprecationWarning' else None
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 60)
    try:
        v = f(*args, **kw)
    except Late:
        exc = 'Timeout'
    except Exception as x:
        exc = type(x).__name__
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        warnings.showwarning = old
    m1 = marks(not uses_picos)
    mut = not same(keep, (args, kw))
    if exc == '':
        try:
            if post is poly:
                r = poly(v)
            elif post is not None:
                r = [v(x) for x in post]
            else:
                r = v
            flat(r, y)
        except Exception as x:
            exc = 'unusable result: '+repr(x)[:80]
    return {'c': call, 'exc': exc, 'y': y, 'marks': sorted(
        a for a in m1 if m0[a] != m1[a]), 'mutated': mut, 'tol': dec(tol),
        'warns': shown}, (v, args, kw)


def session(hist):
    """Run a session in a child."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1), os.dup2(null, 2)
            warnings.simplefilter('always')
            out, last = [], None
            for c in hist:
                if c[0] == 'scribble':
                    overwrite(last)
                    out.append({'c': c, 'exc': '', 'y': [], 'marks': [],
                                'mutated': False, 'tol': '0', 'warns': []})
                else:
                    e, last = one(c)
                    out.append(e)
            with os.fdopen(w, 'w') as h:
                h.write(json.dumps(out))
        except BaseException as x:
            try:
                os.write(w, repr(x).encode())
            except OSError:
                pass
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as h:
        s = h.read()
    os.waitpid(pid, 0)
    try:
        return json.loads(s)
    except ValueError:
        # the process ended before it could tell
        return [{'c': c, 'exc': 'died '+s[:200], 'y': [], 'marks': [],
                 'mutated': False, 'tol': '0', 'warns': []} for c in hist]


def h01(*files):
    out = files[-1]
    warnings.simplefilter('ignore')
    T = Trace(out)
    base = {}

    def baseline(c):
        c = tuple(c)
        if c not in base:
            base[c] = session([list(c)])[0]
        return base[c]
    for f in files[:-1]:
        for k, h in enumerate(scenarios(f)):
            ev = session(h)
            for e in ev:
                b = e if e['c'][0] == 'scribble' else baseline(e['c'])
                e.update(bexc=b['exc'], by=b['y'], bwarns=b['warns'])
            T.add(ev=ev, key='/'.join('%s%d' % tuple(c) for c in h)[:80])
    T.close()
    print('sessions', T.n)


if __name__ == '__main__':
    globals()[sys.argv[1]](*sys.argv[2:])
