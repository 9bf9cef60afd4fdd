"""Driver: NTFs designed in closed form (Z01, Z02, S01, S02, S03)."""
import sys

import numpy as np

from drvlib import (Batch, check_origin, cpl, cvec, dec, nprng, rng,
                    scenarios, vec, QUICK)

check_origin()
from pydsm.delsig import (synthesizeNTF, synthesizeChebyshevNTF, clans,
                          dsclansNTF, ds_optzeros, ds_f1f2, ds_synNTFobj1,
                          rmsGain)
from pydsm.NTFdesign.helpers import maxflat_fir_zeros, spread_fir_uc_zeros


def listy(r, x):
    return np.asarray(x).tolist() if r.random() < .4 else x


# --------------------------------------------------------------------- Z01
def z01(scen, out):
    B = Batch(out, 'zeros', 30)
    r, g = rng('z01'), nprng('z01')
    w1 = lambda v, d={'y': []}: {'y': vec(v)}
    for s in scenarios(scen):
        B.do({'op': 'optz', 'n': s['n'], 'opt': s['opt']}, ds_optzeros,
             [s['n'], s['opt']], {}, w1)
        if s['opt'] == 1:
            B.do({'op': 'optz', 'n': s['n'], 'opt': 1}, ds_optzeros,
                 [s['n']], {}, w1)
    for j in range(120 if QUICK else 1500):
        osr = r.choice([1, 2, 8, 32, 64, 256, 10, 3., 12.5, r.uniform(1, 99)])
        k = r.randrange(6)
        f0 = [0, 0., r.uniform(0, .24)/osr, r.uniform(.26, 2)/osr,
              r.uniform(.001, .5), .25][k]
        if osr > .9 and abs(f0-.25/osr) < 1e-12*f0 and osr not in (
                1, 2, 8, 32, 64, 256):
            continue
        q = bool(r.randrange(2))
        B.do({'op': 'band', 'osr': dec(osr), 'f0': dec(f0), 'quad': q},
             ds_f1f2, [osr, f0, q], {}, w1)
        B.do({'op': 'band', 'osr': dec(osr), 'f0': dec(f0), 'quad': False},
             ds_f1f2, [], {'osr': osr, 'f0': f0}, w1)
        if f0 == 0:
            B.do({'op': 'band', 'osr': dec(osr), 'f0': '0', 'quad': False},
                 ds_f1f2, [osr], {}, w1)
    B.do({'op': 'band', 'osr': '64', 'f0': '0', 'quad': False}, ds_f1f2, [],
         {}, w1)
    wy = lambda v, d={'y': 'nan'}: {'y': dec(v)}
    for j in range(60 if QUICK else 600):
        osr = r.choice([4, 16, 32, 64, 50., r.uniform(4, 128)])
        f0 = r.choice([0, 0, .25, .1, .4, r.uniform(1/osr, .5-1/osr)])
        n = r.randrange(1, 8) if f0 == 0 else 2*r.randrange(1, 4)
        h = n//2
        m = r.randrange(0, h+1) if f0 else h
        x = g.uniform(0 if f0 == 0 else -.5, 1 if f0 == 0 else .5, m)
        p = [r.uniform(.2, .9)*np.exp(1j*r.uniform(.1, 3)) for _ in range(h)]
        p = np.array(p+[q.conjugate() for q in p]+[.5]*(n % 2))
        B.do({'op': 'objf', 'x': vec(x), 'p': cvec(p), 'osr': dec(osr),
              'f0': dec(f0)}, ds_synNTFobj1, [x, p, osr, f0], {}, wy)
    B.close()


# --------------------------------------------------------------------- Z02
def z02(out):
    B = Batch(out, 'helpers', 20)
    r = rng('z02')
    wp = lambda v, d={'p': []}: {'p': cvec(v)}
    wz = lambda v, d={'z': []}: {'z': cvec(v)}
    for j in range(120 if QUICK else 1500):
        n = r.randrange(1, 9)
        a = 10**r.uniform(-1, 6 if n > 1 else 3)
        if (0.5*a**(-1./n)) < 2e-4:
            continue
        B.do({'op': 'maxflat', 'n': n, 'alpha': dec(a)}, maxflat_fir_zeros,
             [n, r.choice([a, np.float64(a)])], {}, wp)

    def noise(H, osr, N, scale):
        return scale*rmsGain(H, 0, .5/osr, N)
    for j in range(24 if QUICK else 200):
        n = r.randrange(1, 7)
        osr = r.choice([4, 8, 16, 32, 64, 20., r.uniform(3, 80)])
        refs = [np.exp(1j*np.pi/osr*ds_optzeros(n, 1)),
                np.ones(n, dtype=complex)]
        k = r.randrange(3)
        args, kw = [([osr, 100, 2.], {}), ([osr], {'N': 100, 'scale': 2.}),
                    ([], {'osr': osr, 'N': 100, 'scale': .5})][k]
        B.do({'op': 'spread', 'n': n, 'osr': dec(osr),
              'refs': [cvec(z) for z in refs]}, spread_fir_uc_zeros,
             [n, osr, noise], dict(([('cf_args', args)] if args else []) +
                                   ([('cf_kwargs', kw)] if kw else [])), wz)
        if j % 2:
            # a cost that calls for zeros out of the signal band
            B.do({'op': 'spread', 'n': n, 'osr': dec(osr), 'refs': []},
                 spread_fir_uc_zeros, [n, osr, noise, [osr/3., 100, 1.]],
                 {}, wz)
    B.close()


# --------------------------------------------------------------------- S01
def s01(scen, out):
    B = Batch(out, 'schreier', 6)
    r, g = rng('s01'), nprng('s01')
    none = {'z': [], 'p': [], 'k': 'nan'}

    def wrap(v, d=none):
        return {'z': cvec(v[0]), 'p': cvec(v[1]), 'k': dec(v[2])}

    def one(order, osr, opt, hinf, f0, useopt, zin=None):
        lp = f0 < .25/osr
        n = order if lp else order//2
        kw = {} if useopt and r.random() < .5 else {'use_optimizer': useopt}
        o = opt if zin is None else zin
        tab, refs = [], []
        f0e = 0. if lp else f0
        if opt <= 2 and f0 <= .5:
            try:
                tab = ds_optzeros(n, opt)
            except ValueError:
                pass
        if opt in (3, 4) and f0 <= .5 and (lp or order % 2 == 0):
            for q in ([0, 1, 2] if opt == 3 else [2]):
                try:
                    H = synthesizeNTF(order, osr, q, hinf, f0e)
                except Exception:
                    continue
                refs.append([cvec(H[0]), cvec(H[1])])
        rec = {'op': 'schreier', 'order': order, 'osr': dec(osr),
               'opt': opt, 'hinf': dec(hinf), 'f0': dec(f0),
               'useopt': useopt, 'warns': [], 'tab': vec(tab), 'refs': refs,
               'zin': cvec(zin) if opt == 5 else []}
        B.do(rec, synthesizeNTF, [order, osr, o, hinf, f0], kw, wrap)

    def gen(s, osr=None):
        order = s['order']
        osr = osr or r.choice([4, 8, 16, 32, 64, 128, 256, 25., r.uniform(4, 99),
                                r.uniform(90, 400)])
        f0 = {'zero': r.choice([0, 0.]), 'low': r.uniform(.01, .24)/osr,
              'edge': .25/osr if osr in (8, 16, 32) else .26/osr,
              'band': r.uniform(.5/osr, .25-.3/osr) if osr > 4 else .2,
              'quarter': .25, 'high': r.uniform(.26, .5-.3/osr),
              'half': .5, 'over': r.uniform(.51, 2)}[s['f0']]
        hinf = {'low': r.uniform(1.05, 1.3), 'mid': r.uniform(1.3, 2.5),
                'high': r.uniform(2.5, 6.),
                'huge': 2.**order*r.uniform(.9, 1.2)}[s['hinf']]
        opt, zin = s['opt'], None
        if opt in (5, 6):
            n = order
            if opt == 6:
                n = order+r.choice([-1, 1, 3])
                n = order+1 if n == 0 else n
            h = n//2
            a = g.uniform(0, .5/osr, h) + (f0 if f0 > .25/osr else 0)
            z = np.exp(2j*np.pi*a)
            z = np.concatenate((z, z.conj(), np.ones(n-2*h)))
            zin = listy(r, z)
            if opt == 6 and r.random() < .3 and n >= 1:
                zin = np.ones((order, 2))
        return (order, osr, opt, hinf, f0, s['useopt'], zin)
    for s in scenarios(scen):
        one(*gen(s))
    for f in ('zero', 'band', 'quarter', 'high'):
        for opt in range(5):
            one(*gen({'order': r.choice([4, 6, 8]), 'f0': f, 'opt': opt,
                      'useopt': True, 'hinf': 'mid'},
                     r.choice([128, 200, 256, 500.])))
    for j in range(120 if QUICK else 1500):
        f = r.choice(['zero', 'band', 'quarter', 'high'])
        useopt = r.random() < .8
        one(*gen({'order': r.randrange(1, 11), 'f0': f, 'useopt': useopt,
                  'opt': r.randrange(0, 5 if useopt else 3),
                  'hinf': r.choice(['low', 'mid', 'high'])}))
    for order, f0, opt in ((14, 0, 1), (15, 0, 1), (15, 0, 0), (16, 0, 2),
                           (30, .2, 1), (10, 0, 1), (12, .3, 2), (9, 0, 1),
                           (8, 0, 1), (7, 0, 2)):
        one(order, 32, opt, 1.3 if order < 20 else 1.5, f0, True)
    B.close()


# --------------------------------------------------------------------- S02
def s02(scen, out):
    B = Batch(out, 'cheby', 6)
    r = rng('s02')
    none = {'z': [], 'p': [], 'k': 'nan'}

    def wrap(v, d=none):
        return {'z': cvec(v[0]), 'p': cvec(v[1]), 'k': dec(v[2])}
    for rep in range(1 if QUICK else 12):
        for s in scenarios(scen):
            order = s['order']
            osr = r.choice([4, 8, 16, 32, 64, 25., r.uniform(4, 99)])
            f0 = {'zero': 0, 'band': r.uniform(.6/osr, .24) if osr > 4
                  else .2, 'quarter': .25,
                  'high': r.uniform(.26, .5-.5/osr)}[s['f0']]
            hinf = {'low': r.uniform(1.05, 1.3), 'mid': r.uniform(1.3, 2.5),
                    'high': r.uniform(2.5, 6.)}[s['hinf']]
            b = ds_f1f2(osr, f0)
            at = sorted([r.uniform(0.01, .49) for _ in range(4)] +
                        [r.uniform(*b) for _ in range(4)] +
                        [max(.003, b[0]), b[1]])
            at = [f for f in at if f > 1e-4]
            kw = {'opt': r.randrange(3)} if r.random() < .3 else {}
            B.do({'op': 'cheby', 'order': order, 'osr': dec(osr), 'opt': 0,
                  'f0': dec(f0), 'hinf': dec(hinf), 'at': vec(at),
                  'rel': '1e-4'}, synthesizeChebyshevNTF, [],
                 dict(order=order, osr=osr, H_inf=hinf, f0=f0, **kw), wrap)
    B.close()


# --------------------------------------------------------------------- S03
def s03(scen, out):
    B = Batch(out, 'clans', 4)
    r, g = rng('s03'), nprng('s03')
    none = {'z': [], 'p': [], 'k': 'nan'}

    def wrap(v, d=none):
        return {'z': cvec(v[0]), 'p': cvec(v[1]), 'k': dec(v[2])}
    for rep in range(1 if QUICK else 8):
        for s in scenarios(scen):
            order, nq, opt = s['order'], s['nq'], s['opt']
            osr = r.choice([6, 8, 8, 16, 32, 64, r.uniform(4, 99)])
            rmax = r.uniform(.7, .85) if s['rmax'] == 'tight' else \
                r.uniform(.93, .99)
            ref = synthesizeNTF(order, osr, opt, 1+nq, 0)
            # A feasible design, to be improved
            for h in np.linspace(1+nq, 1.02, 30):
                H = synthesizeNTF(order, osr, opt, h, 0)
                if abs(H[1]).max() <= .98*rmax and norm1(H)-1 <= .999*nq:
                    rp = H[1]
                    break
            else:
                rp = []
            B.do({'op': 'clans', 'order': order, 'osr': dec(osr), 'warns': [],
                  'nq': dec(nq), 'opt': opt, 'rmax': dec(rmax),
                  'refz': cvec(ref[0]), 'refp': cvec(rp)}, clans,
                 [order, osr, nq, rmax, opt], {}, wrap)
    for j in range(80 if QUICK else 800):
        n = r.randrange(1, 8)
        rmax = r.uniform(.5, 1)
        x = g.uniform(.1, 1.4, n)
        hz = np.exp(2j*np.pi*g.uniform(0, .1, n))
        B.do({'op': 'clansmap', 'n': n, 'x': vec(x), 'rmax': dec(rmax),
              'hz': cvec(hz)}, dsclansNTF, [x, n, rmax, hz], {}, wrap)
    B.close()


def norm1(H):
    from scipy.signal import lfilter
    b, a = np.real(np.poly(H[0])), np.real(np.poly(H[1]))
    d = np.zeros(100)
    d[0] = 1
    return np.sum(np.abs(lfilter(b, a, d)))


if __name__ == '__main__':
    globals()[sys.argv[1]](*sys.argv[2:])
