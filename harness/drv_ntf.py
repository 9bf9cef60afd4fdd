"""Driver: modulators specified by their NTF (M05)."""
import sys

import numpy as np

from drvlib import Trace, call, check_origin, cvec, dec, nprng, rng, QUICK

check_origin()
from pydsm import delsig

BACKENDS = ['scipy', 'scipy_blas', 'cblas']


def pairs(r, n, rmin, rmax):
    """n conjugate-closed roots of modulus in [rmin, rmax]."""
    out = []
    while len(out) < n:
        if n-len(out) >= 2 and r.random() < .75:
            z = r.uniform(rmin, rmax)*np.exp(1j*r.uniform(0.02, 3.1))
            out += [z, z.conjugate()]
        else:
            out.append(r.choice([1, 1, -1])*r.uniform(rmin, rmax)+0j)
    return np.array(out)


def gen(j):
    r, g = rng('ntf', j), nprng('ntf', j)
    k = j % 7
    n = r.choice([1, 2, 2, 3, 4, 5, 6])
    if k == 0:
        z, p = np.ones(n), np.zeros(n)
    elif k == 1:
        z, p = pairs(r, n, 1, 1), pairs(r, n, 0, .8)
    elif k == 2:
        n = max(n, 2)
        z, p, _ = delsig.synthesizeNTF(n, r.choice([8, 32, 64]), r.randrange(
            2), 1.5 if r.random() < .5 else r.uniform(1.2, 3))
    elif k == 3:
        n = 2*max(1, n//2)
        z, p, _ = delsig.synthesizeNTF(n, 32, 1, 1.5, r.uniform(.1, .4))
    elif k == 4:
        n = r.choice([3, 5, 8, 12])
        h = np.hstack((1, g.randn(n)*.4))
        z, p = np.roots(h), np.zeros(n)
    elif k == 5:
        z, p = pairs(r, n, .2, .95), np.zeros(n)
    else:
        z, p = pairs(r, n, .9, 1), pairs(r, n, .1, .6)
    N = r.choice([1, 6, 40, 90])
    if j % 40 == 11:
        N = r.choice([500, 1024, 1700])
    elif j % 40 == 27:
        h = np.hstack((1, g.randn(r.choice([16, 20, 28]))*.2))
        z, p = np.roots(h), np.zeros(len(h)-1)
        n = len(z)
    t = np.arange(N)
    u = [r.uniform(-.6, .6)*np.ones(N),
         r.uniform(0, .8)*np.sin(2*np.pi*r.uniform(0.001, .4)*t+1),
         g.uniform(-.7, .7, N), np.where(t == 0, .5, 0.)][r.randrange(4)]
    nlev = r.choice([2, 2, 3, 4, 5, 9, 16])
    if nlev > 3 and r.random() < .5:
        u = u*(nlev-1)*.6
    return r, z, p, u, nlev


def main(out):
    T = Trace(out)
    for j in range(400 if QUICK else 3000):
        r, z, p, u, nlev = gen(j)
        order = len(z)
        x0 = 0 if r.random() < .8 else np.array(
            [r.uniform(-1, 1) for _ in range(order)])
        for b in BACKENDS + ['auto']:
            if b == 'auto' and j % 5:
                continue
            ntf = (z, p, 1)
            if r.random() < .3:
                ntf = (list(z), list(p), 1.)
            ua = u if r.random() < .7 else (u.reshape(1, -1) if r.random() <
                                            .5 else u.tolist())
            o = call(delsig.simulateDSM, ua, ntf, nlev=nlev, x0=x0,
                     store_y=True, store_xn=r.random() < .5,
                     store_xmax=r.random() < .5, backend=b)
            ev = []
            try:
                if not o.ok:
                    raise ValueError(o.exc+' '+o.msg)
                v, y = np.reshape(o.val[0], len(u)), np.reshape(o.val[3],
                                                                len(u))
                ev = [{'op': 'step', 'u': dec(u[k]), 'v': dec(v[k]),
                       'y': dec(y[k])} for k in range(len(u))]
                o = call(delsig.simulateDSM, ua, ntf, nlev=nlev, x0=x0,
                         backend=b)
                if not o.ok:
                    raise ValueError(o.exc+' '+o.msg)
                ev.append({'op': 'plain', 'v': [dec(a) for a in
                                                np.reshape(o.val[0],
                                                           len(u))]})
            except Exception as e:
                ev.append({'op': 'fail', 'exc': str(e)})
            T.add(z=cvec(z), p=cvec(p), nlev=nlev,
                  # the roots are expanded into coefficients
                  tol=dec(max(1e-9, 2.**order*1e-14)),
                  rest=bool(np.isscalar(x0)), ev=ev, key='%s/%d' % (b, j))
    T.close()
    print('traces', T.n)


main(sys.argv[1])
