"""Driver: modulator simulation (properties M01, M02, M03, M04)."""
import itertools
import sys

import numpy as np

from drvlib import (Trace, call, check_origin, dec, nprng, rng, scenarios,
                    vec, QUICK)

check_origin()
from pydsm import delsig

BACKENDS = ['scipy', 'scipy_blas', 'cblas']


def sim(u, arg2, **kw):
    return call(delsig.simulateDSM, u, arg2, **kw)


def mk(order, nu, nq, A, B, C, D, nlev, name=''):
    f = lambda a, r, c: [[dec(v) for v in row]
                         for row in np.asarray(a, float).reshape(r, c)]
    return {'order': order, 'nu': nu, 'nq': nq, 'A': f(A, order, order),
            'B': f(B, order, nu+nq), 'C': f(C, nq, order), 'D': f(D, nq, nu),
            'nlev': [int(n) for n in nlev], 'name': name}


def fl(m):
    return np.array([[float(v) for v in r] for r in m])


def abcd(m):
    bot = np.hstack((fl(m['C']), fl(m['D']), np.zeros((m['nq'], m['nq']))))
    if m['order'] == 0:
        return bot
    top = np.hstack((fl(m['A']), fl(m['B'])))
    return np.vstack((top, bot))


def variants(r, u, ABCD, x0, nlev, m):
    """Different but equivalent ways to pass the arguments."""
    k = r.randrange(6)
    ua = u
    if m['nu'] == 1 and r.random() < 0.7:
        ua = u[0]
    if k == 1:
        ua = ua.tolist()
    elif k == 2:
        ua = np.asfortranarray(ua)
    elif k == 3:
        big = np.zeros(ua.shape[:-1]+(2*ua.shape[-1],))
        big[..., ::2] = ua
        ua = big[..., ::2]
    elif k == 4 and np.all(ua == np.floor(ua)):
        ua = ua.astype(int)
    elif k == 5:
        ua = ua[..., ::-1].copy()[..., ::-1]
    k = r.randrange(4)
    if k == 1:
        Aa = ABCD.tolist()
    elif k == 2:
        Aa = np.asfortranarray(ABCD)
    elif k == 3 and np.all(ABCD == np.floor(ABCD)):
        Aa = ABCD.astype(int)
    else:
        Aa = ABCD
    if not np.any(x0) and r.random() < 0.6:
        xa = 0
    else:
        k = r.randrange(4)
        xa = [x0, x0.tolist(), x0.reshape(-1, 1), np.array(x0)][k]
    if m['nq'] == 1 and r.random() < 0.7:
        na = int(nlev[0])
    else:
        k = r.randrange(3)
        na = [list(map(int, nlev)), np.array(nlev), tuple(nlev)][k]
        if k == 1 and r.random() < 0.5:
            na = np.repeat(np.array(nlev, dtype=np.int32), 2)[::2]
    return ua, Aa, xa, na


def full(u, ABCD, x0, nlev, m, backend):
    return sim(u, ABCD, nlev=nlev, x0=x0, store_xn=True, store_xmax=True,
               store_y=True, backend=backend)


def cols(a, rows, N):
    a = np.asarray(a)
    if a.size != rows*N:
        return None
    a = a.reshape(rows, N)
    return [[dec(v) for v in a[:, k]] for k in range(N)]


def steps(o, m, u, op='step', start=0):
    """Recorded cycles of a run with all the recording on."""
    N = u.shape[1]
    if not o.ok:
        return [{'op': 'fail', 'exc': o.exc, 'msg': o.msg}]
    try:
        v, xn, xmax, y = o.val
        V = cols(v, m['nq'], N)
        X = cols(xn, m['order'], N)
        Y = cols(y, m['nq'], N)
    except Exception as e:
        return [{'op': 'fail', 'exc': 'malformed result', 'msg': str(e)}]
    if V is None or X is None or Y is None:
        return [{'op': 'fail', 'exc': 'malformed result',
                 'msg': 'sizes %s %s %s' % (np.shape(v), np.shape(xn),
                                            np.shape(y))}]
    return [{'op': op, 'idx': start+k+1, 'u': [dec(a) for a in u[:, k]],
             'v': V[k], 'y': Y[k], 'x': X[k]} for k in range(N)]


def ret(o, m, N, sxn, smax, sy):
    if not o.ok:
        return {'op': 'fail', 'exc': o.exc, 'msg': o.msg}
    try:
        v, xn, xmax, y = o.val
        e = {'op': 'ret', 'sxn': sxn, 'smax': smax, 'sy': sy,
             'vshape': list(np.shape(v)), 'xnshape': list(np.shape(xn)),
             'yshape': list(np.shape(y)), 'ysize': int(np.size(y)),
             'v': cols(v, m['nq'], N) or [],
             'xn': cols(xn, m['order'], N if sxn else 1) or [],
             'xmax': vec(xmax),
             'y': (cols(y, m['nq'], N) if sy else None) or []}
        return e
    except Exception as ex:
        return {'op': 'fail', 'exc': 'malformed result', 'msg': str(ex)}


# -- generators ---------------------------------------------------------------
def gen_exact(r, g):
    """Dyadic domain: every operation is exact in double precision."""
    order = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7])
    nu = r.choice([1, 1, 1, 2, 3])
    nq = r.choice([1, 1, 1, 2, 3])
    kind = r.randrange(3)
    if kind == 0:
        A = np.eye(order) + np.tril(g.randint(-1, 2, (order, order)), -1)
        N = r.choice([1, 2, 5, 17, 30])
    elif kind == 1:
        A = np.zeros((order, order))
        if order > 1:
            A[0, :] = g.randint(-2, 3, order)
            A[1:, :-1] = np.eye(order-1)
        elif order:
            A[0, 0] = g.choice([-1, 1, 2, 0])
        N = r.choice([2, 3, 8, 12])
    else:
        A = g.randint(-1, 2, (order, order))
        N = r.choice([1, 4, 9, 12])
    if r.random() < .03:
        N = 0
    B = g.randint(-3, 4, (order, nu+nq))
    C = g.randint(-8, 9, (nq, order))/4.
    D = g.randint(-4, 5, (nq, nu))/4.
    nlev = [r.choice([1, 2, 2, 3, 4, 5, 8, 15, 16, 33, 101]) for _ in
            range(nq)]
    m = mk(order, nu, nq, A, B, C, D, nlev)
    x0 = np.zeros(order) if r.random() < .5 else g.randint(-8, 9, order)/4.
    k = r.randrange(4)
    if k == 0:
        u = g.randint(-3, 4, (nu, N)).astype(float)
    elif k == 1:
        u = g.randint(-64, 65, (nu, N))/16.
    elif k == 2:
        u = np.ones((nu, N))*g.randint(-8, 9, (nu, 1))/8.
    else:
        u = g.randint(-400, 401, (nu, N))/8.
    return m, x0, u


def gen_float(r, g):
    """Generic reals."""
    order = r.choice([0, 1, 2, 3, 4, 6, 9])
    nu = r.choice([1, 1, 2, 3])
    nq = r.choice([1, 1, 2, 3])
    A = g.randn(order, order)
    A *= r.choice([.5, .95, 1.05])/max([1e-3]+list(abs(np.linalg.eigvals(A))))
    m = mk(order, nu, nq, A, g.randn(order, nu+nq), g.randn(nq, order)*2,
           g.randn(nq, nu), [r.choice([2, 3, 4, 7, 16, 31]) for _ in
                             range(nq)])
    N = r.choice([1, 3, 10, 40])
    x0 = np.zeros(order) if r.random() < .4 else g.randn(order)
    u = g.randn(nu, N)*r.choice([.3, 1, 5])
    return m, x0, u


def gen_long(r, g, exact):
    """Runs that last, of loops that stay bounded; large loops."""
    if not exact:
        if r.random() < .5:
            m, x0, u = gen_float(r, g)
            u = g.randn(m['nu'], r.choice([1, 7]))*r.choice(
                [1e-9, 1e3, 1e12, 1e25])
            return m, x0, u
        order = r.choice([1, 2, 12, 17])
        nu, nq = r.choice([1, 4, 5]), r.choice([1, 1, 5])
        N = 60 if order > 2 else r.choice([300, 1023, 1500])
        A = g.randn(order, order)
        A *= .9/max(abs(np.linalg.eigvals(A)))
        m = mk(order, nu, nq, A, g.randn(order, nu+nq), g.randn(nq, order),
               g.randn(nq, nu), [r.choice([2, 3, 5]) for _ in range(nq)])
        return m, g.randn(order), g.randn(nu, N)
    nq = r.choice([1, 1, 2])
    if r.random() < .5:
        order = nq
        A, B = np.eye(nq), np.hstack((np.eye(nq), -np.eye(nq)))
        C, D = np.eye(nq), np.zeros((nq, nq))
    else:
        order = 2*nq
        I, Z = np.eye(nq), np.zeros((nq, nq))
        A = np.vstack((np.hstack((I, Z)), np.hstack((I, I))))
        B = np.vstack((np.hstack((I, -I)), np.hstack((I, -2*I))))
        C, D = np.hstack((Z, I)), Z
    m = mk(order, nq, nq, A, B, C, D, [r.choice([2, 3, 4]) for _ in
                                      range(nq)])
    N = r.choice([700, 1025, 2500])
    return m, g.randint(-8, 9, order)/16., g.randint(-40, 41, (nq, N))/64.


def from_scen(s):
    m = s['m']
    x0 = np.array([float(a) for a in s['x0']])
    u = np.array([[float(a) for a in c] for c in s['u']]).T.reshape(
        m['nu'], -1)
    return m, x0, u


def cases(mode, scen, nex, nfl):
    for j, s in enumerate(scenarios(scen)):
        m, x0, u = from_scen(s)
        yield 'model', j, True, m, x0, u
    for j in range(nex):
        r, g = rng(mode, 'ex', j), nprng(mode, 'ex', j)
        yield ('exact', j, True) + gen_exact(r, g)
    for j in range(nfl):
        r, g = rng(mode, 'fl', j), nprng(mode, 'fl', j)
        yield ('float', j, False) + gen_float(r, g)
    for j in range(max(4, nex//50)):
        r, g = rng(mode, 'lg', j), nprng(mode, 'lg', j)
        yield ('long', j, j % 2 == 0) + gen_long(r, g, j % 2 == 0)


def main(mode, scen, out):
    T = Trace(out)
    sz = {'m01': (350, 250), 'm02': (130, 60), 'm03': (220, 160),
          'm04': (220, 120)}[mode]
    if not QUICK:
        sz = tuple(8*a for a in sz)
    for kind, j, exact, m, x0, u in cases(mode, scen, *sz):
        r = rng(mode, kind, j, 'run')
        M = abcd(m)
        nlev = m['nlev']
        N = u.shape[1]
        base = dict(m=m, x0=vec(x0), exact=exact, kind=kind)
        if mode == 'm01':
            bks = BACKENDS if kind != 'model' else [BACKENDS[j % 3]]
            for b in bks:
                o = full(*(variants(r, u, M, x0, nlev, m) + (m, b)))
                ev = steps(o, m, u)
                ua, Aa, xa, na = variants(r, u, M, x0, nlev, m)
                ev.append(ret(sim(ua, Aa, nlev=na, x0=xa, backend=b),
                              m, N, False, False, False))
                T.add(ev=ev, backend=b,
                      key='%s/%s/%d' % (b, kind, j), **base)
        elif mode == 'm02':
            if kind == 'model' and j % 12:
                continue
            for b in (BACKENDS if kind != 'model' else
                      [BACKENDS[(j//12) % 3]]):
                o = full(u, M, x0, nlev, m, b)
                ev = steps(o, m, u)
                if o.ok:
                    ev.append(ret(o, m, N, True, True, True))
                for sxn, smax, sy in itertools.product([False, True],
                                                       repeat=3):
                    ua, Aa, xa, na = variants(r, u, M, x0, nlev, m)
                    o = sim(ua, Aa, nlev=na, x0=xa, store_xn=sxn,
                            store_xmax=smax, store_y=sy, backend=b)
                    ev.append(ret(o, m, N, sxn, smax, sy))
                T.add(ev=ev, backend=b, key='%s/%s/%d' % (b, kind, j), **base)
        elif mode == 'm03':
            if kind == 'model' and j % 4:
                continue
            ref = r.choice(BACKENDS)
            others = [b for b in BACKENDS if b != ref] + ['auto', 'default']
            a = variants(r, u, M, x0, nlev, m)
            ev = steps(full(*(a + (m, ref))), m, u)
            for b in others:
                ev.append({'op': 'restart', 'backend': b})
                if b == 'default':
                    o = sim(a[0], a[1], nlev=a[3], x0=a[2], store_xn=True,
                            store_xmax=True, store_y=True)
                else:
                    o = full(*(a + (m, b)))
                ev += steps(o, m, u, 'again')
                if o.ok and exact:
                    ev.append(ret(o, m, N, True, True, True))
                o = sim(a[0], a[1], nlev=a[3], x0=a[2], **(
                    {} if b == 'default' else {'backend': b}))
                if exact:
                    ev.append(ret(o, m, N, False, False, False))
            T.add(ev=ev, backend=ref, key='%s/%s/%d' % (ref, kind, j), **base)
        elif mode == 'm04':
            if kind == 'model' and j % 6:
                continue
            for b in BACKENDS:
                ev = steps(full(u, M, x0, nlev, m, b), m, u)
                for rep in range(2):
                    # a random partition of the input
                    cuts = sorted(set(r.randrange(0, N+1) for _ in
                                      range(r.randrange(1, 5))))
                    cuts = [0] + cuts + [N]
                    x = x0
                    ev.append({'op': 'restart', 'backend': b})
                    for a, c in zip(cuts[:-1], cuts[1:]):
                        if a == c and N:
                            if r.random() < .7:
                                continue
                        uu = u[:, a:c]
                        f = full(uu, M, x, nlev, m, b)
                        # the state to continue from is the one delivered
                        # with the default recording options
                        o = sim(uu if r.random() < .5 else uu.copy(), M,
                                nlev=nlev, x0=x, backend=b)
                        ev += steps(f, m, uu, 'again', a)
                        if not o.ok:
                            ev.append({'op': 'fail', 'exc': o.exc,
                                       'msg': o.msg})
                            break
                        x = o.val[1]
                    else:
                        ev.append({'op': 'ret', 'sxn': False, 'smax': False,
                                   'sy': False,
                                   'vshape': [d for d in (m['nq'], N)
                                              if d != 1],
                                   'v': [e['v'] for e in ev[:N]
                                         if e['op'] == 'step'],
                                   'xnshape': list(np.shape(x)),
                                   'xn': [vec(x)], 'xmax': [], 'y': [],
                                   'yshape': [], 'ysize': 0})
                T.add(ev=ev, backend=b, key='%s/%s/%d' % (b, kind, j), **base)
    T.close()
    print('traces', T.n)


if __name__ == '__main__':
    main(*sys.argv[1:4])
