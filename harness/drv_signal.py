"""Driver: signals and filters (K01, E01, I01, F01, N01, G01)."""
import sys

import numpy as np

from drvlib import (Batch, arr, check_origin, cpl, cvec, dec, nprng, rng,
                    scenarios, small, vec, QUICK)

check_origin()
from pydsm import correlations, delsig, ft, ir, NTFdesign
from pydsm.NTFdesign import filter_based, legacy, weighting


def pairs(r, n, rmin, rmax):
    """n conjugate-closed roots of modulus in [rmin, rmax]."""
    out = []
    while len(out) < n:
        if n-len(out) >= 2 and r.random() < .75:
            z = r.uniform(rmin, rmax)*np.exp(1j*r.uniform(0.05, 3.1))
            out += [z, z.conjugate()]
        else:
            out.append(r.choice([1, 1, -1])*r.uniform(rmin, rmax)+0j)
    return np.array(out, dtype=complex)


def listy(r, x):
    return x.tolist() if r.random() < .4 else x


# --------------------------------------------------------------------- K01
def k01(scen, out):
    B = Batch(out, 'corr', 60)
    r, g = rng('k01'), nprng('k01')

    def wrap(v, d={'q': []}):
        return {'q': cvec(v)}

    def one(x, y, N):
        if y is None:
            B.do({'op': 'corr', 'x': cvec(x), 'y': cvec(x), 'N': N,
                  'rel': '1e-12'}, correlations.raw_acorr, [x, N], {}, wrap)
        else:
            B.do({'op': 'corr', 'x': cvec(x), 'y': cvec(y), 'N': N,
                  'rel': '1e-12'}, correlations.raw_xcorr, [x, y, N], {},
                 wrap)
    for j, s in enumerate(scenarios(scen)):
        x, y = s['x'], s['y']
        if j % 2:
            x, y = np.array(x), np.array(y, float)
        for N in range(len(y)+1):
            one(x, y, N)
        one(x, None, len(x))
        one(y, None, j % (len(y)+1))
    for j in range(150 if QUICK else 1500):
        n, m = r.randrange(1, 30), r.randrange(1, 30)
        x, y = g.randn(n)*10.**r.randrange(-3, 4), g.randn(m)
        if r.random() < .3:
            x = x+1j*g.randn(n)
        if r.random() < .3:
            y = y+1j*g.randn(m)
        if j % 6 == 2:
            x = small(r, g, n)
        if j % 12 in (2, 5):
            y = small(r, g, m)
        one(listy(r, x), listy(r, y), r.randrange(m+1))
        one(x, y, m)
        one(listy(r, x), None, r.randrange(n+1))
    for j in range(3 if QUICK else 20):
        n, m = r.choice([300, 700, 1025]), r.choice([2, 40, 300, 1024])
        x, y = g.randn(n), g.randn(m)+(1j*g.randn(m) if j % 2 else 0)
        one(x, y, min(m, r.choice([1, 5, 60])))
        one(y, x, r.choice([1, 5, 60]))
        one(y, None, min(m, r.choice([3, 50])))
    B.close()


# --------------------------------------------------------------------- E01
def e01(out):
    B = Batch(out, 'tf', 40)
    r, g = rng('e01'), nprng('e01')

    def wrap(v, d={'y': [], 'ysh': [-1]}):
        return {'y': cvec(v), 'ysh': list(np.shape(v))}

    def points():
        sh = r.choice([(), (), (1,), (4,), (7,), (2, 3), (1, 1), (3, 1)])
        k = r.randrange(5)
        x = [np.exp(2j*np.pi*g.rand(*sh)), g.randn(*sh)+1j*g.randn(*sh),
             1j*10.**g.uniform(-2, 4, sh), g.randn(*sh),
             g.randint(2, 7, sh)][k]
        x = np.asarray(x)
        return x, (x.tolist() if r.random() < .3 else x[()])
    for j in range(250 if QUICK else 3000):
        n, m = r.randrange(0, 7), r.randrange(0, 7)
        x, xa = points()
        if j % 25 == 7:
            n, m = r.randrange(12, 33), r.choice([0, 3, 20, 32])
        elif j % 25 == 19:
            x = np.exp(1j*np.linspace(0, np.pi, r.choice([100, 257, 513])))
            xa = x
        elif j % 25 in (3, 12):
            x = small(r, g, x.shape)
            xa = x[()]
        z, p = pairs(r, n, 0, 2), pairs(r, m, 0, .95)
        k = r.choice([1, 1., -2.5, .1, 1e6, 3])
        if r.random() < .2 and n:
            z = np.array([z[0]]*n)    # complex, multiple
        if r.random() < .2:
            z = np.round(z.real).astype(float)
        if j % 25 in (3, 16):
            z = g.randint(-100, 100, n).astype(np.int8)
        zl, pl = (listy(r, z), listy(r, p))
        zi = list(z)+[r.choice([np.inf, np.inf, -np.inf, 1j*np.inf, complex(
            np.inf, -3)]) for _ in range(r.randrange(1, 3))] \
            if r.random() < .3 else None
        if zi:
            r.shuffle(zi)
        B.do({'op': 'rpoly', 'roots': cvec(z), 'k': cpl(k),
              'at': cvec(x), 'atsh': list(x.shape)}, delsig.evalRPoly,
             [zi or zl, xa, k], {}, wrap)
        B.do({'op': 'rpoly', 'roots': cvec(z), 'k': cpl(1),
              'at': cvec(x), 'atsh': list(x.shape)}, delsig.evalRPoly,
             [zl, xa], {}, wrap)
        ash = list(x.shape) if x.size > 1 else []
        B.do({'op': 'evaltf', 'form': 'zpk', 'z': cvec(z), 'p': cvec(p),
              'k': cpl(k), 'at': cvec(x), 'atsh': ash}, delsig.evalTF,
             [(zl, pl, k), xa], {}, wrap)
        b, a = g.randn(n+1), np.hstack((1., g.randn(m)))
        if r.random() < .3:
            b, a = np.round(b*3).astype(int), np.round(a*3).astype(int)
        if abs(np.polyval(a, x)).min() < 1e-6:
            continue
        B.do({'op': 'evaltf', 'form': 'ba', 'z': cvec(b), 'p': cvec(a),
              'k': cpl(1), 'at': cvec(x), 'atsh': ash}, delsig.evalTF,
             [(listy(r, b), listy(r, a)), xa], {}, wrap)
    B.close()


def filt(r, g, kind=None, rmax=.8, nmax=6, exact=False):
    """A random filter: record for the specification, and the argument."""
    kind = kind or r.choice(['fir-ba', 'fir-zpk', 'iir-ba', 'iir-zpk'])
    n = r.randrange(1, nmax+1)
    k = r.choice([1, 1., .5, -2.])
    if kind == 'fir-ba':
        b = np.hstack((r.choice([1., .3]), g.randn(n)*.6))
        if r.random() < .2:
            b = np.array([1., 0, 0, -1.])
        if r.random() < .3:
            b = np.array([1, -2, 1])
        return ({'form': 'ba', 'b': vec(b), 'a': ['1'], 'c': '1'},
                (listy(r, b), [1]))
    if kind == 'fir-zpk':
        z = pairs(r, n, .2, 1.3)
        if r.random() < .3:
            z = np.ones(n)
        p = np.zeros(n)
        return ({'form': 'zpk', 'z': cvec(z), 'p': cvec(p), 'k': dec(k),
                 'c': '1'}, (listy(r, z), listy(r, p), k))
    p = pairs(r, n, .1, rmax)
    while any(abs(p[i]-p[j]) < .05 for i in range(n) for j in range(i)):
        p = pairs(r, n, .1, rmax)
    z = pairs(r, r.choice([n, n, max(n-1, 0), 0]), .1, 1.2)
    if kind == 'iir-zpk':
        return ({'form': 'zpk', 'z': cvec(z), 'p': cvec(p), 'k': dec(k),
                 'c': '1'}, (listy(r, z), listy(r, p), k))
    b, a = np.poly(z).real*k*np.ones(1), np.poly(p).real
    if r.random() < .3:
        a, b = a*2, b*2
    return ({'form': 'ba', 'b': vec(b), 'a': vec(a), 'c': '1'},
            (listy(r, np.atleast_1d(b)), listy(r, a)))


def order_pmax(f):
    if f['form'] == 'zpk':
        nz = len(f['z'])
        p = [abs(complex(float(a), float(b))) for a, b in f['p']]
    else:
        b = [float(x) for x in f['b']]
        while len(b) > 1 and b[-1] == 0:
            b.pop()
        nz = len(f['b'])-1
        p = [abs(x) for x in np.roots([float(x) for x in f['a']])]
    return nz, dec(max(p) if p else 0)


# --------------------------------------------------------------------- I01
def i01(scen, out):
    B = Batch(out, 'ir', 20)
    r, g = rng('i01'), nprng('i01')

    def wrap(v, d={'h': []}):
        return {'h': vec(v)}
    for s in scenarios(scen):
        b, a = s['x'], s['y']
        if a[0] == 0:
            continue
        f = {'form': 'ba', 'b': vec(b), 'a': vec(a)}
        B.do({'op': 'ir', 'f': f, 'm': [5], 'nz': 0, 'pmax': '0',
              'db': '0', 'rel': '1e-10'}, ir.impulse_response,
             [(b, a), 5], {}, wrap)
    for j in range(200 if QUICK else 2000):
        f, h = filt(r, g, rmax=r.choice([.5, .8, .95]))
        if f['form'] == 'zpk' and r.random() < .5:
            # roots in any order, some poles in the origin
            p = list(h[1])+[0.]*r.choice([0, 0, 1, 2])
            z = list(h[0])
            r.shuffle(p)
            r.shuffle(z)
            h = (listy(r, np.array(z)), listy(r, np.array(p)), h[2])
            f = dict(f, z=cvec(z), p=cvec(p))
        nz, pm = order_pmax(f)
        m = r.choice([1, 2, 3, 10, 25])
        B.do({'op': 'ir', 'f': f, 'm': [m], 'nz': nz, 'pmax': pm,
              'db': '0', 'rel': '1e-10'}, ir.impulse_response, [h],
             {'m': m}, wrap)
        db = r.choice([80, 80, 20, 40., 120])
        if float(pm) > .9:
            db = 20
        kw = {} if db == 80 and r.random() < .6 else {'db': db}
        B.do({'op': 'ir', 'f': f, 'm': [], 'nz': nz, 'pmax': pm,
              'db': dec(db), 'rel': '1e-10'}, ir.impulse_response, [h], kw,
             wrap)
        B.do({'op': 'guess', 'nz': nz, 'pmax': pm, 'db': dec(db)},
             ir.guess_ir_length, [h], kw,
             lambda v, d={'y': '-1'}: {'y': int(v)})
    for j in range(6 if QUICK else 40):
        f, h = filt(r, g, rmax=.99) if j % 2 else \
            filt(r, g, 'fir-ba', nmax=80)
        nz, pm = order_pmax(f)
        m = r.choice([150, 400, 1025])
        B.do({'op': 'ir', 'f': f, 'm': [m], 'nz': nz, 'pmax': pm,
              'db': '0', 'rel': '1e-9'}, ir.impulse_response, [h],
             {'m': m}, wrap)
    B.close()


# --------------------------------------------------------------------- F01
def f01(out):
    B = Batch(out, 'ft', 40)
    r, g = rng('f01'), nprng('f01')

    def seq(n, real=False):
        x = g.randn(n)*10.**r.randrange(-2, 3)
        k = r.randrange(4)
        if k == 0:
            x = np.round(x).astype(int)
        elif k > 1 and not real:
            x = x+1j*g.randn(n)
        return x

    def wy(v, d={'y': ['nan', 'nan']}):
        return {'y': cpl(v)}

    def wr(v, d={'y': 'nan'}):
        assert not np.iscomplexobj(v)
        return {'y': dec(v)}
    for n in range(1, 13):
        for k in range(3):
            x = seq(n)
            fs = r.choice([None, 1, 2, 44100, .5, 3.])
            B.do({'op': 'centered', 'x': cvec(x), 'fs': dec(fs or 1)},
                 ft.fft_centered, [listy(r, x)]+([] if fs is None else [fs]),
                 {}, lambda v, d={'ff': [], 'X': []}:
                 {'ff': vec(v[0]), 'X': cvec(v[1])})
    for n in (31, 64, 127, 200):
        x = seq(n)
        B.do({'op': 'centered', 'x': cvec(x), 'fs': '48000'},
             ft.fft_centered, [x, 48000], {},
             lambda v, d={'ff': [], 'X': []}:
             {'ff': vec(v[0]), 'X': cvec(v[1])})
    for j in range(150 if QUICK else 1500):
        n = r.randrange(1, 9)
        if j % 30 == 4:
            n = r.choice([50, 200, 600])
        elif j % 30 == 18:
            n = r.choice([12, 17, 33])
        x = seq(n)
        fs = r.choice([1, 1, 2, 44100., .5])
        t0 = r.choice([0, 0, 1, -2, .5, 3])
        kw = {}
        if fs != 1:
            kw['fs'] = fs
        f = r.choice([0, .5, -.25, r.uniform(-1, 1), r.uniform(-.5, .5)])
        kt = dict(kw, t0=t0) if t0 else kw
        xx = listy(r, x)
        B.do({'op': 'dtft', 'x': cvec(x), 'f': dec(f), 't0': dec(t0)},
             lambda a: ft.dtft(a, **kt)(f*fs), [xx], {}, wy)
        B.do({'op': 'dtfth', 'x': cvec(x), 'f': dec(f)},
             lambda a: ft.dtft_hermitian(a, **kw)(f*fs), [xx], {}, wr)
        if j % 3 == 0:
            tt = r.choice([[0, 1, 2], list(range(-2, n+2)), [-1, .5, 2.25],
                           3])
            ta = np.asarray(tt)
            ts = tt if np.isscalar(tt) or r.random() < .5 else ta
            q = {} if r.random() < .7 else {'quad_opts': {'limit': 200}}
            B.do({'op': 'idtft', 'x': cvec(x), 't0': dec(t0), 't': vec(ta)},
                 lambda a, t: ft.idtft(ft.dtft(a, **kt), t,
                                       **dict(kw, **q)),
                 [x, ts], {}, lambda v, d={'y': []}: {'y': cvec(v)})
            y = seq(n, True)
            B.do({'op': 'idtfth', 'x': cvec(y), 't': vec(ta)},
                 lambda a, t: ft.idtft_hermitian(ft.dtft_hermitian(a, **kw),
                                                 t, **dict(kw, **q)),
                 [y, ts], {}, lambda v, d={'y': []}: {'y': vec(v)})
            tau = r.choice([0, 1, -2, .5, r.uniform(-3, 3)])
            B.do({'op': 'delayh', 'tau': dec(tau), 't': vec(ta)},
                 lambda t: ft.idtft_hermitian(
                     lambda f: np.exp(-2j*np.pi*f/fs*tau), t,
                     **dict(kw, **q)),
                 [ts], {}, lambda v, d={'y': []}: {'y': vec(v)})
    B.close()


# --------------------------------------------------------------------- N01
def n01(scen, out):
    B = Batch(out, 'gain', 8)
    r, g = rng('n01'), nprng('n01')
    UNIT = {'form': 'ba', 'b': ['1'], 'a': ['1'], 'c': '1'}
    gain = NTFdesign.quantization_noise_gain
    dgain = filter_based.quantization_noise_gain

    def wy(v, d={'y': 'nan'}):
        return {'y': dec(v)}

    def wq(v, d={'q': []}):
        return {'q': vec(v)}

    def mag2(h):
        def w(f):
            z = np.exp(2j*np.pi*f)
            if len(h) == 2:
                n, d = np.polyval(h[0], z), np.polyval(h[1], z)
            else:
                n = h[2]*np.prod([z-a for a in h[0]])
                d = np.prod([z-a for a in h[1]])
            return abs(n/d)**2
        return w

    def tup(h):
        return tuple(h)
    for j, s in enumerate(scenarios(scen)):
        if s['x'][0] == 0 or s['y'][0] == 0:
            continue
        x, y = s['x'], s['y']
        f = {'form': 'ba', 'b': vec(x), 'a': ['1']}
        w = {'form': 'ba', 'b': vec(y), 'a': ['1']}
        B.do({'op': 'gain', 'f': f, 'g': w, 'c': '1', 'm': 8,
              'rel': '1e-7'}, gain, [(x, [1]), (y, [1])], {}, wy)
        P = 1+j % 4
        B.do({'op': 'q0', 'g': w, 'c': '1', 'P': P, 'm': 8, 'rel': '1e-8'},
             weighting.q0_weighting, [P, (y, [1])], {}, wq)
    for j in range(60 if QUICK else 700):
        f, h = filt(r, g)
        w, k = filt(r, g)
        h, k = tup(h), tup(k)
        fir = f['form'] == 'ba' and f['a'] == ['1'] or \
            f['form'] == 'zpk' and all(float(a[0]) == float(a[1]) == 0
                                       for a in f['p'])
        m = 260
        B.do({'op': 'gain', 'f': f, 'g': UNIT, 'c': '1', 'm': m,
              'rel': '1e-7'}, gain, [h], {}, wy)
        B.do({'op': 'gain', 'f': f, 'g': w, 'c': '1', 'm': m,
              'rel': '1e-7'}, gain, [h, k], {}, wy)
        q = r.randrange(6)
        if q == 0:
            B.do({'op': 'gain', 'f': f, 'g': w, 'c': '1', 'm': m,
                  'rel': '1e-7'}, gain, [h, mag2(k)], {}, wy)
        elif q == 1:
            B.do({'op': 'gain', 'f': f, 'g': w, 'c': '1', 'm': m,
                  'rel': '1e-3'}, legacy.quantization_noise_gain_by_conv,
                 [h, k, 'zpk' if len(k) == 3 else 'ba'], {}, wy)
            # the accuracy hint applies to both responses
            db = r.choice([200, 240.])
            B.do({'op': 'gain', 'f': f, 'g': w, 'c': '1', 'm': m,
                  'rel': '1e-8'},
                 r.choice([legacy.quantization_noise_gain_by_conv,
                           filter_based.quantization_noise_gain_by_conv]),
                 [h, k, 'zpk' if len(k) == 3 else 'ba', db], {}, wy)
        elif q == 2:
            B.do({'op': 'gain', 'f': f, 'g': w, 'c': '1', 'm': m,
                  'rel': '1e-7'}, dgain,
                 [h, k, 'zpk' if len(k) == 3 else 'ba'], {}, wy)
        elif q == 3:
            mg = mag2(k)
            B.do({'op': 'gain', 'f': f, 'g': w, 'c': '1', 'm': m,
                  'rel': '1e-7'}, dgain, [h, lambda f: np.sqrt(mg(f)),
                                          'mag'], {}, wy)
        else:
            b = g.randn(r.randrange(1, 6))
            b[0] = 1
            wb = {'form': 'ba', 'b': vec(b), 'a': ['1']}
            B.do({'op': 'gain', 'f': f, 'g': wb, 'c': '1', 'm': m,
                  'rel': '1e-7' if q == 4 else '1e-3'},
                 dgain if q == 4 else legacy.quantization_noise_gain_by_conv,
                 [h, listy(r, b), 'imp'], {}, wy)
        # first row of the quadratic form
        P = r.randrange(1, 7)
        if j % 12 == 5:
            P = r.choice([12, 20, 32])
        t = r.randrange(5)
        if t < 2:
            o = B.do({'op': 'q0', 'g': w, 'c': '1', 'P': P, 'm': m,
                      'rel': '1e-8'}, weighting.q0_weighting,
                     [P, k if t else mag2(k)], {}, wq)
        elif t == 2:
            B.do({'op': 'q0', 'g': w, 'c': '1', 'P': P, 'm': m,
                  'rel': '1e-8'}, filter_based.q0_from_filter,
                 [P, k, 'zpk' if len(k) == 3 else 'ba'], {}, wq)
        elif t == 3:
            mg = mag2(k)
            B.do({'op': 'q0', 'g': w, 'c': '1', 'P': P, 'm': m,
                  'rel': '1e-8'}, filter_based.q0_from_filter,
                 [P, lambda f: np.sqrt(mg(f)), 'mag'], {}, wq)
        else:
            b = g.randn(P+1+r.choice([0, 1, 2, 3, 40, 90]))
            wb = {'form': 'ba', 'b': vec(b), 'a': ['1']}
            B.do({'op': 'q0', 'g': wb, 'c': '1', 'P': P, 'm': len(b),
                  'rel': '1e-10'}, filter_based.q0_from_filter,
                 [P, b, 'imp'], {}, wq)
            B.do({'op': 'q0', 'g': wb, 'c': '1', 'P': P, 'm': len(b),
                  'rel': '1e-10'}, legacy.q0_from_filter_ir, [P, b], {}, wq)
        # gain of a FIR NTF as a quadratic form
        ff, fh = filt(r, g, r.choice(['fir-ba', 'fir-zpk']))
        if j % 12 == 8:
            ff, fh = filt(r, g, 'fir-ba', nmax=32)
        P = (len(ff['b']) if ff['form'] == 'ba' else len(ff['z'])+1)-1
        o = call_q0(P, k)
        if o is not None:
            B.do({'op': 'quadform', 'f': ff, 'q': vec(o), 'rel': '1e-6'},
                 gain, [tup(fh), k], {}, wy)
        # gain over a band
        w2, k2 = filt(r, g, r.choice(['fir-ba', 'fir-zpk']))
        k2 = tup(k2)
        f1 = r.choice([0, 0, r.uniform(0, .3)])
        f2 = r.choice([.5, f1+r.uniform(.01, .2)])
        rec = {'op': 'bandgain', 'f': ff, 'f1': dec(f1), 'f2': dec(f2),
               'avg': False, 'rel': '1e-6'}
        B.do(dict(rec, g=UNIT), gain, [tup(fh)], {'bounds': (f1, f2)}, wy)
        B.do(dict(rec, g=w2), gain, [tup(fh), k2, (f1, f2)], {}, wy)
        B.do(dict(rec, g=w2, avg=True), gain, [tup(fh), k2],
             {'bounds': [f1, f2], 'avg': True}, wy)
        B.do(dict(rec, g=UNIT), gain,
             [tup(fh), lambda f: 1. if f1 <= f <= f2 else 0.],
             {'quad_opts': {'points': [f1, f2]}}, wy)
        if f1 == 0:
            B.do(dict(rec, g=UNIT, avg=True, f2='0.5', f1='0'), gain,
                 [tup(fh)], {'avg': True}, wy)
        # products of weightings
        nf = r.randrange(1, 6)
        fs = [filt(r, g) for _ in range(nf)]
        args = [tup(b) if r.random() < .6 else mag2(tup(b)) for a, b in fs]
        nu = [r.uniform(0, .5) for _ in range(3)]
        B.do({'op': 'mult', 'fs': [a for a, b in fs], 'nu': vec(nu)},
             lambda *a: [NTFdesign.mult_weightings(*a)(x) for x in nu],
             args, {}, lambda v, d={'y': []}: {'y': vec(v)})
        B.do({'op': 'mult', 'fs': [a for a, b in fs], 'nu': vec(nu)},
             lambda *a: NTFdesign.mult_weightings(*a)(np.array(nu)),
             [tup(b) for a, b in fs], {},
             lambda v, d={'y': []}: {'y': vec(v)})
        if j < 3:
            for fn, a in ((dgain, [h, k, 'foo']),
                          (filter_based.q0_from_filter, [3, k, 'foo']),
                          (legacy.quantization_noise_gain_by_conv,
                           [h, k, 'foo'])):
                B.do({'op': 'badtype'}, fn, a, {}, lambda v, d={}: {})
    B.close()


def call_q0(P, k):
    try:
        return weighting.q0_weighting(P, k)
    except Exception:
        return None


# --------------------------------------------------------------------- G01
def g01(out):
    B = Batch(out, 'rms', 8)
    r, g = rng('g01'), nprng('g01')
    for j in range(120 if QUICK else 1500):
        f, h = filt(r, g, rmax=.9)
        f1 = r.choice([0, 0, r.uniform(0, .4)])
        f2 = r.choice([.5, f1+r.uniform(.001, .1), f1+.1])
        N = r.choice([None, 2, 3, 10, 33]) if j % 4 else None
        B.do({'op': 'rmsgain', 'f': f, 'f1': dec(f1), 'f2': dec(f2),
              'N': N or 100, 'rel': '1e-9'}, delsig.rmsGain,
             [tuple(h), f1, f2]+([] if N is None else [N]), {},
             lambda v, d={'y': 'nan'}: {'y': dec(v)})
    B.close()


{'k01': k01, 'e01': e01, 'i01': i01, 'f01': f01, 'n01': n01,
 'g01': g01}[sys.argv[1]](*sys.argv[2:])
