"""Calls of the entry points of the package, in several ways."""
import sys
import importlib
import numpy as np
from drvlib import Trace, call, cpl, scenarios
import pydsm
import pydsm.audio_weightings   # noqa: F401
import pydsm.NTFdesign          # noqa: F401


NS = {'np': np, 'pydsm': pydsm, 'EPS': np.finfo(float).eps}


def cost(ntf, *args, **kw):
    """A cost with its minimum at zeros that depend on the arguments."""
    t = np.abs(np.angle(np.asarray(ntf[0])))
    w = .03+.01*sum(args)+.1*kw.get('c', 0)
    return float(np.sum((t-w)**2))+.01


NS['cost0'] = cost
NS['cost2'] = lambda zz, *a, **k: 2*cost(zz, *a, **k)+1


def ev(x):
    return eval(x, dict(NS))


def find(name):
    mod, f = name.rsplit('.', 1)
    return getattr(importlib.import_module(mod), f)


def flat(v, out):
    """Shape of a result; the numbers go in out."""
    if callable(v):
        out.extend(cpl(v(t)) for t in (100., 1000., 5000.))
        return 'f'
    if isinstance(v, (tuple, list)):
        return '('+','.join(flat(x, out) for x in v)+')'
    if v is None or isinstance(v, str):
        return repr(v)
    a = np.asarray(v)
    out.extend(cpl(z) for z in a.reshape(-1))
    return 'b%s' % (a.shape,) if a.dtype == bool else 'a%s' % (a.shape,)


def result(f, args, kw):
    r = call(lambda: f(*[ev(a) for a in args],
                       **{k: ev(v) for k, v in kw}), _limit=120)
    out = []
    return {'exc': r.exc, 'form': flat(r.val, out) if r.ok else '',
            'vals': out,
            'dep': sum(w == 'PyDsmDeprecationWarning' for w in r.warn)}


def filtered(s, odd):
    """Functions of filters, H given in one of the forms."""
    fb = importlib.import_module('pydsm.NTFdesign.filter_based')
    lg = importlib.import_module('pydsm.NTFdesign.legacy')
    H = s['H']
    z = [float(x) for x in H['z']]
    p, k = float(H['p']), float(H['k'])
    b, a = k*np.poly(z), np.poly([0., p])
    h = np.zeros(100)
    h[:3] = b
    for n in range(1, 100):
        h[n] += p*h[n-1]
    forms = {'zpk': (np.array(z), np.array([0., p]), k), 'ba': (b, a),
             'imp': h, 'mag': lambda f: np.abs(
                 np.polyval(b, np.exp(2j*np.pi*f)) /
                 np.polyval(a, np.exp(2j*np.pi*f))), 'hz': (b, a)}
    Hf = forms[s['form']]
    n = np.array([float(x) for x in s['ntf']])
    m = len(n)-1
    ntf = (n, np.r_[1., np.zeros(m)]) if odd else (np.roots(n), np.zeros(m),
                                                  1.)
    out, full = [], {}
    opt = dict(show_progress=False)
    f = s['f']
    if f == 'gain':
        r = call(fb.quantization_noise_gain, ntf, Hf, s['form'])
    elif f == 'conv':
        r = call(fb.quantization_noise_gain_by_conv, ntf, Hf, s['form'])
    elif f == 'convl':
        r = call(lg.quantization_noise_gain_by_conv, ntf, Hf, s['form'])
    elif f == 'q0':
        r = call(fb.q0_from_filter, s['P'], Hf, s['form'])
    elif f == 'q0l':
        r = call(lg.q0_from_filter_ir, s['P'], h)
    else:
        def poly(d):
            return np.real(np.poly(d[0]))
        r = call(lambda: poly(fb.synthesize_ntf_from_filter(
            s['P'], Hf, s['form'], **opt)))
        t = call(lambda: poly(pydsm.NTFdesign.ntf_fir_weighting(
            s['P'], (b, a), **opt)))
        v = []
        full = {'exc': t.exc, 'form': flat(t.val, v), 'vals': v, 'dep': 0}
    return {'r': {'exc': r.exc, 'form': flat(r.val, out) if r.ok else '',
                  'vals': out, 'dep': r.warn.count('PyDsmDeprecationWarning')},
            'full': full}


def api(*files):
    T = Trace(files[-1])
    for f in files[:-1]:
        for k, sc in enumerate(scenarios(f)):
            s = sc['s']
            if sc['part'] == 'filter':
                T.add(part='filter', s=s, key=str(k), ev=[filtered(s, k % 2)])
                continue
            g, t = find(s['f']), find(s['to'])
            opts = [tuple(o) for o in s['opts']]
            kw = [tuple(o) for o in s['kw']]
            out = [result(g, s['pos'], kw+opts),
                   result(g, s['pos'], kw+opts),
                   result(t, s['full'], opts)]
            T.add(part=sc['part'], s=s, key=str(k),
                  ev=[{'r': out[0], 'again': out[1], 'full': out[2]}])
    T.close()
    print('traces', T.n)


if __name__ == '__main__':
    globals()[sys.argv[1]](*sys.argv[2:])
