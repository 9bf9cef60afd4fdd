"""O01: histories of option changes and calls on the real code.

The numerical back ends (integrator, optimizers) are replaced, before pydsm
is imported, by recorders: the options that arrive there are the effective
ones.  Optimizers do not run at all: reaching them ends the call."""
import copy
import sys

import numpy as np
import scipy.integrate
import scipy.optimize


class Reached(BaseException):
    pass


REC = {'quad': [], 'min': [], 'conic': []}
_quad, _min, _lb = (scipy.integrate.quad, scipy.optimize.minimize,
                    scipy.optimize.fmin_l_bfgs_b)


def quad(f, a, b, *args, **kw):
    REC['quad'].append(dict(kw))
    kw = {k: kw[k] for k in kw if k == 'points'}
    return _quad(f, a, b, limit=60, **kw)


def minimize(fun, x0, *args, **kw):
    REC['min'].append(dict(kw.get('options', {})))
    raise Reached()


def fmin_l_bfgs_b(*args, **kw):
    REC['min'].append(dict(kw))
    return _lb(*args, **kw)


scipy.integrate.quad = quad
scipy.optimize.minimize = minimize
scipy.optimize.fmin_l_bfgs_b = fmin_l_bfgs_b
for m in (scipy.integrate._quadpack_py, scipy.optimize._minimize):
    for n, f in (('quad', quad), ('minimize', minimize)):
        if hasattr(m, n):
            setattr(m, n, f)

import cvxopt
import cvxopt.solvers
import scs


def _modeler():
    """Which modelling library is calling the solver."""
    f, names = sys._getframe(2), []
    while f is not None:
        m = f.f_globals.get('__name__', '')
        if m.startswith('picos'):
            return 'picos'
        if m.startswith('cvxpy.'):
            return 'cvxpy'
        if m.startswith('pydsm.cvxpy_tdr'):
            return 'cvxpy_old'
        f = f.f_back
    return '?'


def conic(name):
    def g(*a, **kw):
        o = dict(cvxopt.solvers.options)
        o.update(kw.get('options', {}))
        bad = 0
        for m in a:
            try:
                bad |= int(not np.all(np.isfinite(np.array(
                    cvxopt.matrix(m)))))
            except Exception:
                pass
        REC['conic'].append(dict(o=o, solver='cvxopt', modeler=_modeler(),
                                 show=o.get('show_progress'), nan=bad,
                                 chol=kw.get('kktsolver') == 'chol'))
        raise Reached()
    return g


for n in ('conelp', 'coneqp', 'cpl', 'cp', 'lp', 'qp', 'socp', 'sdp'):
    setattr(cvxopt.solvers, n, conic(n))


def scs_solve(data, cone, **kw):
    o = dict(kw)
    if o.get('eps_abs') == o.get('eps_rel') and 'eps' not in o:
        o['eps'] = o.get('eps_abs')
    REC['conic'].append(dict(o=o, solver='scs', modeler=_modeler(),
                             show=o.get('verbose'), nan=0, chol=False))
    raise Reached()


scs.solve = scs_solve
if hasattr(scs, 'SCS'):
    class _SCS(object):
        def __init__(self, data, cone, **kw):
            scs_solve(data, cone, **kw)
    scs.SCS = _SCS

from drvlib import *
check_origin()
import pydsm.ft
import pydsm.delsig
import pydsm.NTFdesign as D
import pydsm.NTFdesign.weighting as W
import pydsm.NTFdesign.filter_based as FB
import pydsm.NTFdesign.helpers as H
from pydsm.utilities import digested_options

q0 = np.array([1., 1.5, 0.])
wneg = lambda f: 1+3*np.cos(2*np.pi*f)
one = lambda f: 1.+0*f
ntf = ([1.], [0.5], 1.)
hf = ([1., 0.5], [1.])

FN = {
    'idtft': (pydsm.ft.idtft, lambda **k: pydsm.ft.idtft(one, 1, **k)),
    'idtft_hermitian': (pydsm.ft.idtft_hermitian,
                        lambda **k: pydsm.ft.idtft_hermitian(one, [0, 1],
                                                             **k)),
    'q0_weighting': (W.q0_weighting, lambda **k: W.q0_weighting(2, hf, **k)),
    'noise_gain': (D.quantization_noise_gain,
                   lambda **k: D.quantization_noise_gain(ntf, hf, **k)),
    'fb_noise_gain': (FB.quantization_noise_gain,
                      lambda **k: FB.quantization_noise_gain(ntf, hf, 'ba',
                                                             **k)),
    'fb_q0': (FB.q0_from_filter, lambda **k: FB.q0_from_filter(2, hf, 'ba',
                                                               **k)),
    'from_q0': (W.ntf_fir_from_q0, lambda **k: W.ntf_fir_from_q0(q0, **k)),
    'fir_weighting': (D.ntf_fir_weighting,
                      lambda **k: D.ntf_fir_weighting(2, wneg, **k)),
    'hybrid': (D.ntf_hybrid_weighting,
               lambda **k: D.ntf_hybrid_weighting(2, wneg, **k)),
    'audio': (D.ntf_fir_audio_weighting,
              lambda **k: D.ntf_fir_audio_weighting(2, 4, **k)),
    'minmax': (D.ntf_fir_minmax, lambda **k: D.ntf_fir_minmax(2, 8, **k)),
    'fb_synth': (FB.synthesize_ntf_from_filter,
                 lambda **k: FB.synthesize_ntf_from_filter(2, hf, 'ba', **k)),
    'clans': (pydsm.delsig.clans, lambda **k: pydsm.delsig.clans(2, 16, 5,
                                                                 **k)),
    'spread': (H.spread_fir_uc_zeros,
               lambda **k: H.spread_fir_uc_zeros(2, 8, lambda h: 1., **k)),
    'schreier': (pydsm.delsig.synthesizeNTF,
                 lambda **k: pydsm.delsig.synthesizeNTF(3, 8, 3, **k)),
    'simulate': (pydsm.delsig.simulateDSM,
                 lambda **k: pydsm.delsig.simulateDSM([0.5, 0.1], ntf, **k)),
}
VAL = {'epsabs': (1e-9, 1e-8), 'epsrel': (1e-7, 1e-6), 'limit': (70, 80),
       'points': ([0.1], [0.2]), 'maxiters': (51, 52), 'abstol': (2e-6, 3e-6),
       'reltol': (2e-5, 3e-5), 'feastol': (4e-6, 5e-6),
       'max_iters': (711, 712), 'eps': (1e-5, 1e-4), 'alpha': (1.5, 1.6),
       'acceleration_lookback': (3, 4), 'ftol': (1e-5, 1e-4),
       'gtol': (1e-4, 1e-3), 'maxcor': (8, 9), 'maxiter': (91, 92),
       'maxfun': (801, 802), 'zzz': (1, 2)}


def value(name, v):
    if v in ('T', 'F'):
        return v == 'T'
    if v in ('a', 'b'):
        return copy.deepcopy(VAL[name]['ab'.index(v)])
    return v


def s(v):
    if isinstance(v, dict):
        return {k: s(v[k]) for k in sorted(v, key=str)}
    if isinstance(v, (bool, np.bool_)):
        return str(bool(v))
    if isinstance(v, (int, float, np.number)):
        return dec(float(v))
    return v if isinstance(v, str) else repr(v)


ORIG = {f: copy.deepcopy(FN[f][0].default_options) for f in FN}


def snapshot():
    return {f: s(FN[f][0].default_options) for f in FN}


def restore():
    """In place, so that dictionaries shared by mistake stay shared."""
    for f in FN:
        d = FN[f][0].default_options
        for k in list(d):
            if k not in ORIG[f]:
                del d[k]
        for k, v in ORIG[f].items():
            if isinstance(v, dict) and isinstance(d.get(k), dict):
                d[k].clear()
                d[k].update(copy.deepcopy(v))
            else:
                d[k] = copy.deepcopy(v)


D0 = snapshot()


def do_call(f, kw):
    for k in REC:
        del REC[k][:]
    old = dict(cvxopt.solvers.options)
    keep = copy.deepcopy(kw)

    def go():
        try:
            FN[f][1](**kw)
        except Reached:
            pass
    out, sys.stdout = sys.stdout, sys.stderr
    try:
        o = call(go, _limit=60)
    finally:
        sys.stdout = out
    cvxopt.solvers.options.clear()
    cvxopt.solvers.options.update(old)
    ev = dict(op='call', f=f, kw=s(keep), exc=o.exc, msg=o.msg,
              quad=[s(x) for x in REC['quad']], slow=0,
              conic=dict(o={'x': ''}, solver='', modeler='', show='', nan=0,
                         chol=''),
              min=dict(n=len(REC['min']), o={'x': ''}, disp=''),
              kwsame=bool(s(keep) == s(kw)), after=snapshot())
    if REC['conic']:
        c = REC['conic'][-1]
        ev['conic'] = dict(o=s(c['o']), solver=c['solver'],
                           modeler=c['modeler'], show=s(bool(c['show'])),
                           nan=c['nan'], chol=s(c['chol']))
    if REC['min']:
        m = s(REC['min'][-1])
        ev['min']['o'] = {k: v for k, v in m.items()
                          if isinstance(v, str)}
        ev['min']['o'].setdefault('x', '')
        ev['min']['disp'] = str(m.get('disp', ''))
    ev['slow'] = int('PyDsmSlowPathWarning' in o.warn)
    if not ev['kw']:
        ev['kw'] = {'dummy': ''}
    # an empty JSON object is not a function for the specification
    return ev


def histories(path, tr):
    for sc in scenarios(path):
        restore()
        ev = []
        for c in sc['h']:
            if c['op'] == 'set':
                v = value(c['s'] or c['o'], c['v'])
                d = FN[c['f']][0].default_options
                if c['s']:
                    d[c['o']][c['s']] = v
                else:
                    d[c['o']] = v
                ev.append(dict(op='set', f=c['f'], o=c['o'], s=c['s'],
                               v=s(v), after=snapshot()))
            else:
                kw = {}
                for o, x in (c['kw'] or {}).items():
                    kw[o] = ({k: value(k, x[k]) for k in x}
                             if isinstance(x, dict) else value(o, x))
                ev.append(do_call(c['f'], kw))
        for e in ev:
            if e['op'] == 'call' and e['kw'] == {'dummy': ''}:
                e['kw'] = {}
        tr.add(kind='history', key='%s' % sc['h'][0]['f'], d0=D0, ev=ev)
    restore()


def digests(path, tr):
    evs = []
    for sc in scenarios(path):
        defs = {'a': 'da', 'b': 'db', 'g': {'x': 'dx', 'y': 'dy'}}
        opts = dict((k, 'u'+k) for k in (sc['plain'] or {}))
        g = sc['gs']
        if g != 'absent':
            opts['g'] = ({k: 'u'+k for k in g} if g != 'none' else {})
        o0, d0 = copy.deepcopy(opts), copy.deepcopy(defs)
        inner = opts.get('g')
        r = call(digested_options, opts, defs, list(sc['keys']),
                 list(sc['multi']), sc['ec'])
        out = r.val if isinstance(r.val, dict) else {}
        for k in out:                     # later use must not leak back
            if isinstance(out[k], dict):
                before = copy.deepcopy(out[k])
                out[k]['leak'] = 1
                same = (defs == d0)
                del out[k]['leak']
                if not same:
                    defs = {}
        evs.append(dict(op='digest', keys=sorted(sc['keys']),
                        multi=sorted(sc['multi']), ec=sc['ec'], opts=o0,
                        defs=d0, exc=r.exc, out=out, left=opts,
                        defsame=bool(defs == d0),
                        argsame=bool(inner is None or inner == o0['g'])))
    for k in range(0, len(evs), 50):
        tr.add(kind='digest', key='digest', d0=D0, ev=evs[k:k+50])


tr = Trace(sys.argv[3])
histories(sys.argv[1], tr)
digests(sys.argv[2], tr)
tr.close()
