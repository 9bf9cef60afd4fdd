"""Driver: elementary services (M07, C01, A01, B01)."""
from decimal import Decimal
import itertools
import sys

import numpy as np

from drvlib import (Batch, arr, check_origin, cpl, cvec, dec, nprng, rng,
                    scenarios, small, QUICK)

check_origin()
from pydsm import delsig, relab, simulation, utilities


def xvec(a):
    """Exact decimals."""
    return [format(Decimal(float(v)), 'e') for v in
            np.asarray(a).reshape(-1)]


EMPTY = {'sh': [0], 'v': []}


# --------------------------------------------------------------------- M07
def m07(scen, out):
    B = Batch(out, 'quant', 60)

    def wrap(v, d={'v': EMPTY}):
        return {'v': arr(v)}

    def one(f, y, n):
        B.do({'op': 'quant', 'y': arr(y), 'n': [int(k) for k in
                                                np.reshape(n, -1)]},
             f, [y, n], {}, wrap)
    fs = [delsig.ds_quantize, simulation.ds_quantize]
    for j, s in enumerate(scenarios(scen)):
        y = [a/4. for a in s['y']]
        f = fs[j % 2]
        if len(y) == 1:
            for n in range(1, 7):
                one(f, y[0], n)
                one(f, np.array([y[0]]), n)
                one(f, np.array([[y[0]]]), [n])
                one(f, [y[0]], (n,))
        else:
            n = [1+j % 5, 1+(j//5) % 5]
            one(f, np.array(y).reshape(2, 1), n)
            one(f, np.array(y), np.array(n))
            one(f, np.array(y), 1+j % 6)
    g = nprng('m07')
    r = rng('m07')
    for j in range(300 if QUICK else 3000):
        nq = r.choice([1, 1, 2, 3, 5])
        n = [r.choice([1, 2, 3, 4, 7, 8, 100, 101, 65535, 65536])
             for _ in range(nq)]
        k = r.choice([1, 1, 2, 4])
        y = g.randn(nq, k)*r.choice([.1, 1, 10, 1e3, 1e6])
        if r.random() < .3:
            y = np.round(y)
        if r.random() < .2:
            y = y.astype(int)
        elif r.random() < .15:
            y = small(r, g, y.shape)
        elif r.random() < .2:
            y = np.nextafter(np.round(y), r.choice([-1e9, 1e9]))
        if r.random() < .3:
            y = np.asfortranarray(y)
        if nq == 1:
            q = r.randrange(4)
            y = [y, y[0], y[0].tolist(), y[0, 0]][q]
            n = [n, n[0], np.array(n), np.int64(n[0])][r.randrange(4)]
        else:
            n = [n, tuple(n), np.array(n), np.array(n).reshape(-1, 1)][
                r.randrange(4)]
            if r.random() < .3:
                y = y.tolist()
        one(r.choice(fs), y, n)
    B.close()


# --------------------------------------------------------------------- C01
def c01(scen, out):
    B = Batch(out, 'pair', 60)

    def wrap(y, d={'y': EMPTY}):
        return {'y': arr(y, cvec)}

    def one(x, tol=None, dim=None, f=relab.cplxpair):
        t = tol
        if t is None:
            dt = np.asarray(x).dtype
            t = 100*float(np.finfo(dt).eps if dt.kind in 'fc' else
                          np.finfo(float).eps)
        kw = {}
        if tol is not None:
            kw['tol'] = tol
        if dim is not None:
            kw['dim'] = dim
        B.do({'op': 'pair', 'x': arr(x, cvec), 'tol': dec(t),
              'dim': [] if dim is None else [dim]}, f, [x], kw, wrap)
    for j, s in enumerate(scenarios(scen)):
        x = [complex(*z) for z in s['x']]
        if all(z.imag == 0 for z in x):
            xr = [z.real for z in x]
            x = [x, xr, [int(a) for a in xr], np.array(xr)][j % 4]
        elif j % 2:
            x = np.array(x)
        one(x)
        if j % 9 == 0:
            one(x, f=utilities.cplxpair)
    one(1)
    one(2.5)
    one(1j)
    one(3+0j)
    g, r = nprng('c01'), rng('c01')

    def vals(n, tol, spoil=False):
        """About n values in pairs, well apart from each other."""
        out = []
        npair = r.randrange(n//2+1)
        seen = []
        for _ in range(20*npair):
            if len(out) >= 2*npair:
                break
            z = complex(r.choice([g.randn(), np.round(g.randn(), 1), .5]),
                        abs(g.randn())+.05)*r.choice([1, 1, 1e-6, 1e4])
            if z.imag <= 10*tol*abs(z):
                continue
            if any(abs(z-w) < 80*tol*max(abs(z), abs(w)) and z != w
                   for w in seen):
                continue
            seen.append(z)
            e = [complex(*(g.uniform(-.2, .2, 2)))*tol*abs(z)*r.choice(
                [0, 1]) for _ in range(2)]
            out += [z+e[0], (z+e[1]).conjugate()]
        while len(out) < n:
            a = r.choice([g.randn(), np.round(g.randn()), 0.])
            out.append(complex(a, a*tol*g.uniform(-.5, .5)*r.choice([0, 1])))
        if spoil:
            k = r.randrange(len(out))
            z = out[k]
            out[k] = r.choice([z+30*tol*abs(z)*1j, z*(1+30*tol),
                               z.conjugate()])
        r.shuffle(out)
        return out
    # repeated values, with or without a match for each
    for j in range(150 if QUICK else 2000):
        a, b = [complex(r.choice([0, 1, -2, .5]), r.choice([1, 2, .5]))
                for _ in range(2)]
        S = [a, a.conjugate(), b, b.conjugate(), 0, 1.5]
        n = r.choice([2, 4, 4, 5, 6, 6, 8])
        x = [r.choice(S) for _ in range(n)]
        if j % 3 == 0:
            y = [r.choice([a, b]) for _ in range(n//2)]
            x = y+[z.conjugate() for z in y]
            if j % 2:
                x[-1] = r.choice([a, b]).conjugate()
            r.shuffle(x)
        one(np.array(x) if j % 2 else x)
    for j in range(250 if QUICK else 3000):
        kind = r.randrange(6)
        tol = None
        dt = complex
        if kind == 1:
            tol = r.choice([1e-12, 1e-6, 1e-3])
        if kind == 2:
            dt = np.complex64
        t = tol or 100*float(np.finfo(dt).eps)
        if kind < 4:
            n = r.randrange(1, 13) if j % 20 else r.choice([24, 41, 64])
            x = np.array(vals(n, t, r.random() < .15), dtype=dt)
            if kind == 2 and not clear(x, t):
                continue
            if kind == 3:
                x = x.tolist()
            one(x, tol)
        else:
            sh = [r.randrange(1, 5) for _ in range(r.choice([2, 2, 3]))]
            d = r.randrange(len(sh))
            dim = d if kind == 4 else None
            if dim is None:
                d = next((i for i, v in enumerate(sh) if v > 1), 0)
            x = np.empty(sh, complex)
            y = np.moveaxis(x, d, -1)
            for o in itertools.product(*[range(k) for k in y.shape[:-1]]):
                y[o] = vals(y.shape[-1], t, r.random() < .02)
            one(x if r.random() < .7 else x.tolist(), None,
                dim if dim is None or r.random() < .8 else dim-len(sh))
    B.close()


def clear(x, t):
    """Whether values rounded to single precision are still clear cut."""
    x = x.astype(complex)
    for a in x:
        if abs(a) and .5*t < abs(a.imag)/abs(a) < 10*t:
            return False
        for b in x:
            for w in (b, b.conjugate()):
                d = max(abs((a-w).real), abs((a-w).imag))
                if .5*t*abs(a) < d < 20*t*abs(a):
                    return False
    return True


# --------------------------------------------------------------------- A01
def a01(scen, scen2, out):
    B = Batch(out, 'axes', 60)
    g, r = nprng('a01'), rng('a01')

    def wrap_s(v, d={'y': EMPTY, 'n': 0}):
        return {'y': arr(v[0]), 'n': int(v[1])}

    def shift(x, req, **kw):
        a = [x]+([] if req is None else [req])
        q = [] if req is None else [req]
        B.do({'op': 'shift', 'x': arr(x), 'req': [int(k) for k in q]}, relab.shiftdim, a, kw,
             wrap_s)

        def wrap_1(v, d={'y': EMPTY, 'n': 0}):
            n = relab.shiftdim(x, *q)[1]
            return {'y': arr(v), 'n': int(n)}
        B.do({'op': 'shift', 'x': arr(x), 'req': [int(k) for k in q]}, relab.shiftdim, a,
             dict(kw, nargout=1), wrap_1)
    for s in scenarios(scen):
        sh = s['sh']
        x = np.arange(float(np.prod(sh))).reshape(sh)
        shift(x, None)
        for n in range(-2, len(sh)+2):
            shift(x if (n+len(sh)) % 2 else x.tolist(), n)
        shift(x.T, r.randrange(len(sh)+1))
    for j in range(12 if QUICK else 100):
        sh = [r.choice([1, 1, 2, 3]) for _ in range(r.choice([5, 6, 7]))]
        if j % 3 == 0:
            sh = [1]*r.randrange(3)+[r.choice([40, 97]), r.randrange(1, 4)]
        if j % 3 == 1:
            sh = [1]*r.randrange(2)+[r.randrange(0, 3) for _ in range(3)]
        x = np.asarray(g.randn(*sh)).astype(r.choice([float, np.float32,
                                                      np.int16]))
        shift(x, None)
        shift(x, r.choice([1, 2, -1, -3, np.int64(1), len(sh)]))

    def wrap_p(v, d={'y': EMPTY}):
        return {'y': arr(v, cvec)}
    F = {'l': delsig.padl, 'r': delsig.padr, 't': delsig.padt,
         'b': delsig.padb}
    for sh in [(n,) for n in range(0, 5)]+[(a, b) for a in range(1, 5)
                                           for b in range(1, 5)]:
        for side in 'lrtb':
            for extra in (0, 1, 3):
                x = g.randn(*sh)
                q = r.randrange(4)
                if q == 0:
                    x = np.round(x*9).astype(int)
                elif q == 1:
                    x = x+1j*g.randn(*sh)
                elif q == 2 and x.ndim == 2:
                    x = np.asfortranarray(x)
                ax = 0 if len(sh) == 1 or side in 'tb' else 1
                n = sh[ax]+extra
                for val in (None, r.choice([1, -2.5, 1j, np.exp(.3j)])):
                    B.do({'op': 'pad', 'x': arr(x, cvec), 'side': side,
                          'n': n, 'val': cpl(val or 0)}, F[side],
                         [x, n]+([] if val is None else [val]), {}, wrap_p)
    for j in range(16 if QUICK else 120):
        sh = r.choice([(50,), (130,), (33, 2), (2, 61), (17, 19), (0, 3),
                       (3, 0)])
        side = 'lrtb'[j % 4]
        x = np.asarray(g.randn(*sh)).astype(r.choice([float, complex,
                                                      np.int32]))
        ax = 0 if len(sh) == 1 or side in 'tb' else 1
        n = sh[ax]+r.choice([0, 1, 40])
        B.do({'op': 'pad', 'x': arr(x, cvec), 'side': side, 'n': n,
              'val': cpl(7)}, F[side], [x, n, 7], {}, wrap_p)

    def wrap_m(v, d={'p': []}):
        return {'p': [arr(a) for a in v]}
    for s in scenarios(scen2):
        if len(s['sh']) != 2:
            continue
        p, q = s['sh']
        x = g.randn(p, q)
        if min(p, q) >= 2:
            B.do({'op': 'part', 'x': arr(x), 'm': []}, delsig.partitionABCD,
                 [x], {}, wrap_m)
        for m in range(1, q+1):
            if q-m <= p:
                y = r.choice([x, x.tolist(), np.asfortranarray(x),
                              np.matrix(x)])
                B.do({'op': 'part', 'x': arr(x), 'm': [m]},
                     delsig.partitionABCD, [y, m], {}, wrap_m)
    for j in range(6):
        order, nu, nq = r.randrange(5, 14), r.randrange(1, 5), r.randrange(1, 5)
        x = g.randn(order+nq, order+nu+nq)
        B.do({'op': 'part', 'x': arr(x), 'm': [nu+nq]},
             delsig.partitionABCD, [x, nu+nq], {}, wrap_m)
    B.close()


# --------------------------------------------------------------------- B01
def b01(out):
    B = Batch(out, 'base', 30)
    g, r = nprng('b01'), rng('b01')

    def wrap(v, d={'y': EMPTY}):
        return {'y': arr(v)}

    def rnd(sh, pos=False):
        x = np.asarray(g.randn(*sh)*10.**g.randint(-8, 8))
        if pos:
            x = np.abs(x)
        return x
    shapes = [(), (1,), (3,), (5,), (2, 3), (1, 4), (2, 1, 2)]
    D = {'dbv': delsig.dbv, 'dbp': delsig.dbp, 'dbm': delsig.dbm}
    U = {'undbv': delsig.undbv, 'undbp': delsig.undbp,
         'undbm': delsig.undbm}
    inv = {'dbv': delsig.undbv, 'dbp': delsig.undbp, 'dbm': delsig.undbm}
    for j in range(150 if QUICK else 2500):
        sh = r.choice(shapes)
        for f in D:
            x = rnd(sh)
            q = r.randrange(6)
            if q == 0:
                x = np.round(x/(1+np.max(np.abs(x)))*9)
            elif q == 1:
                x = np.round(x/(1+np.max(np.abs(x)))*9).astype(int)
            elif q == 2:
                x = np.where(g.rand(*sh) < .4, 0., x)
            elif q == 3:
                x = small(r, g, sh)
            R = r.choice([50., 50., 75, 1, .1, 600.])
            kw = {}
            if f == 'dbm' and (R != 50. or r.random() < .3):
                kw = {'R': R}
            elif f == 'dbm':
                R = 50.
            y = x.tolist() if r.random() < .3 else np.asarray(x)[()]
            B.do({'op': 'db', 'f': f, 'x': arr(x), 'R': dec(R)}, D[f], [y],
                 kw, wrap)
            if np.iscomplexobj(x) or j % 3:
                pass
            else:
                z = x*np.exp(1j*g.rand())
                B.do({'op': 'db', 'f': f, 'x': arr(np.abs(z)),
                      'R': dec(R)}, D[f], [np.asarray(z)[()]], kw, wrap)
            if np.all(np.asarray(x) != 0):
                # inverse of the direct conversion
                B.do({'op': 'roundtrip', 'x': arr(np.abs(x))},
                     lambda a: inv[f](D[f](a, **kw), **kw), [y], {}, wrap)
        for f in U:
            x = np.asarray(g.uniform(-150, 150, sh))
            if r.random() < .3:
                x = np.round(x)
            if r.random() < .2:
                x = x.astype(r.choice([int, np.int16, np.int32]))
            R = r.choice([50., 75, 1, .1, 600.])
            kw = {'R': R} if f == 'undbm' and R != 50. else {}
            y = x.tolist() if r.random() < .3 else np.asarray(x)[()]
            B.do({'op': 'undb', 'f': f, 'x': arr(x), 'R': dec(R)}, U[f],
                 [y], kw, wrap)
            d = {'undbv': 'dbv', 'undbp': 'dbp', 'undbm': 'dbm'}[f]
            B.do({'op': 'roundtrip', 'x': arr(x)},
                 lambda a: D[d](U[f](a, **kw), **kw), [y], {}, wrap)
        x = rnd(sh, True)
        x = np.where(x == 0, 1, x)
        if j % 7 == 3:
            x = small(r, g, sh, True)
        x = np.asarray(x)[()]
        dbf = relab.db if j % 5 else utilities.db
        R = r.choice([1, 50., .3])
        B.do({'op': 'db', 'f': 'db-power', 'x': arr(x), 'R': '1'}, dbf,
             [x, 'power'], {}, wrap)
        B.do({'op': 'db', 'f': 'db-power', 'x': arr(x), 'R': '1'}, dbf,
             [x], {'signal_type': 'power', 'R': R}, wrap)
        B.do({'op': 'db', 'f': 'db', 'x': arr(x), 'R': '1'}, dbf,
             [-x if np.asarray(x).dtype.kind == "f" else x], {}, wrap)
        B.do({'op': 'db', 'f': 'db', 'x': arr(x), 'R': dec(R)}, dbf,
             [x*r.choice([1, 1j, -1]) if np.asarray(x).dtype.kind == 'f'
              else x], {'R': R}, wrap)
        # floating point spacing
        x = g.randn(*sh)*10.**g.randint(-12, 12)
        x = np.where(np.asarray(x) == 0, 1., x)
        if r.random() < .4:
            x = np.sign(x)*2.**g.randint(-30, 30, sh)
        x32 = np.asarray(x).astype(np.float32)
        for y, b in ((np.asarray(x)[()], 53), (x32[()], 24),
                     (np.asarray(x).tolist(), 53)):
            B.do({'op': 'eps', 'x': arr(y, xvec), 'bits': b}, relab.eps, [y],
                 {}, lambda v, d={'y': EMPTY}: {'y': arr(v, xvec)})
        # rms
        n = r.randrange(1, 9)
        x = g.randn(n)*10.**r.randrange(-3, 4)+r.choice([0, 0, 3])
        if r.random() < .3:
            x = x+1j*g.randn(n)
        if r.random() < .2:
            x = np.round(x.real).astype(int)
        elif r.random() < .1:
            x = small(r, g, n)
        for nodc in (False, True):
            B.do({'op': 'rms', 'x': cvec(x), 'nodc': nodc}, delsig.rms,
                 [x if r.random() < .6 else x.tolist()]+([nodc] if nodc or
                                                         j % 2 else []), {},
                 lambda v, d={'y': '0'}: {'y': dec(v)})
        # negligible values and chopping
        tol = r.choice([None, None, 1e-3, 1., 1e-9])
        t = 100*utilities.EPS if tol is None else tol
        a = [] if tol is None else [tol]
        x = np.where(g.rand(*sh) < .5, g.randn(*sh)*t*r.choice([.3, 2, 1]),
                     g.randn(*sh))
        if r.random() < .2:
            x = np.where(g.rand(*sh) < .5, t, x)
        if r.random() < .4:
            x = x+1j*np.where(g.rand(*sh) < .5, g.randn(*sh)*t*.3,
                              g.randn(*sh))
        y = np.asarray(x)[()] if r.random() < .7 else np.asarray(
            x).tolist()
        clearcut = np.all(np.abs(np.abs(x)-t) > 1e-9*t) or \
            not np.iscomplexobj(x)
        if clearcut:
            B.do({'op': 'negl', 'x': arr(x, cvec), 'tol': dec(t)},
                 utilities.is_negligible, [y]+a, {},
                 lambda v, d={'y': EMPTY}: {
                     'y': arr(v, lambda q: [bool(k) for k in q.reshape(-1)])
                 })
        B.do({'op': 'chop', 'x': arr(x, cvec), 'tol': dec(t)},
             utilities.chop, [y]+a, {},
             lambda v, d={'y': EMPTY}: {'y': arr(v, cvec)})
        # chained products
        k = r.randrange(1, 5)
        dm = [r.randrange(1, 4) for _ in range(k+1)]
        ms = [g.randint(-4, 5, (dm[i], dm[i+1])) for i in range(k)]
        B.do({'op': 'mdot', 's': [arr(m) for m in ms]}, utilities.mdot,
             [m if r.random() < .7 else m.tolist() for m in ms], {}, wrap)
    for ty, b in ((float, 53), (np.float32, 24), (np.float64, 53),
                  (np.dtype('f4'), 24)):
        B.do({'op': 'eps', 'x': arr(1.), 'bits': b}, relab.eps, [ty], {},
             lambda v, d={'y': EMPTY}: {'y': arr(v, xvec)})
    B.do({'op': 'eps', 'x': arr(1.), 'bits': 53}, relab.eps, [], {},
         lambda v, d={'y': EMPTY}: {'y': arr(v, xvec)})
    B.close()


{'m07': m07, 'c01': c01, 'a01': a01, 'b01': b01}[sys.argv[1]](*sys.argv[2:])
