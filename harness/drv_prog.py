"""Programs of cvxpy_tdr with formal arguments, called as functions."""
import sys

import numpy as np

from drvlib import Trace, call, dec, scenarios
from pydsm import cvxpy_tdr as ct

SHAPES = {'sv': (1, 1), 'sp': (1, 1), 'el': (1, 1), 'v2': (2, 1),
          'r2': (1, 2), 'p2': (2, 1), 'm2': (2, 2)}


def formal(kind):
    if kind == 'el':
        return ct.variable(2, 2)[1, 0]
    f = ct.parameter if kind in ('sp', 'p2') else ct.variable
    return f(*SHAPES[kind])


def scalars(x, kind):
    if SHAPES[kind] == (1, 1):
        return [x]
    return [x[i, j] for i in range(SHAPES[kind][0])
            for j in range(SHAPES[kind][1])]


def program(p):
    fs = [formal(k) for k in p['fs']]
    F = [x for f, k in zip(fs, p['fs']) for x in scalars(f, k)]
    w, G = ct.variable(), ct.parameter()
    obj = 0
    for t in p['terms']:
        e = t['b']*w+t['c']
        for a, x in zip(t['a'], F):
            e = e+a*x
        if t['m']:
            e = e+F[t['m']-1]*w
        if t['g']:
            e = e+t['g']*G
        obj = obj+t['t']*ct.abs(e)
    if p['act'] == 'maximize':
        obj = -obj
    cs = [ct.geq(w, p['lo']), ct.leq(w, p['hi'])]
    cs += [(ct.leq if c['s'] > 0 else ct.geq)(F[c['i']-1], c['d'])
           for c in p['caps']]
    return ct.program(getattr(ct, p['act'])(obj), cs, formals=fs), G


def gather(kind, vals, numbers):
    """One argument out of its scalars."""
    m, n = SHAPES[kind]
    if (m, n) == (1, 1):
        return vals[0]
    if numbers:
        return ct.matrix(np.array(vals, dtype=float).reshape(m, n))
    return ct.vstack(tuple(ct.hstack(tuple(vals[i*n:(i+1)*n]))
                           for i in range(m)))


def arguments(p, vals, numbers=False):
    out = []
    for k in p['fs']:
        n = SHAPES[k][0]*SHAPES[k][1]
        out.append(gather(k, vals[:n], numbers))
        vals = vals[n:]
    return out


def bad(p, P, how):
    good = arguments(p, [1.]*sum(SHAPES[k][0]*SHAPES[k][1]
                                 for k in p['fs']), True)
    if how == 'few':
        return call(P, *good[:-1])
    if how == 'many':
        return call(P, *(good+[1.]))
    if how == 'formal':
        w = ct.variable()
        return call(ct.program, ct.minimize(w), [], formals=[w+1])
    n = len(good)-1
    for i, k in enumerate(p['fs']):
        if how == 'replace' and k in ('sp', 'p2') or \
                how == 'turned' and k in ('v2', 'r2', 'p2'):
            n = i
    m = SHAPES[p['fs'][n]]
    if how == 'none':
        x = None
    elif how == 'nan':
        x = np.nan if m == (1, 1) else ct.matrix(np.full(m, np.nan))
    elif how == 'text':
        x = 'a'
    elif how == 'ndarray':
        x = np.ones(m)
    elif how == 'shape':
        x = ct.matrix(np.ones((3, 1)))
    elif how == 'turned':
        x = ct.matrix(np.ones(m[::-1]))
    elif how == 'replace':
        x = ct.variable(*m)
    good[n] = x
    return call(P, *good)


def classes(p, P, kinds):
    x = ct.variable()
    own = [k for k in p['fs'] for i in range(SHAPES[k][0]*SHAPES[k][1])]
    vals = [2 if k in ('sp', 'p2') else 2*x+1 if c == 'aff' else
            ct.square(x)+1 if c == 'cvx' else 1-ct.square(x)
            for c, k in zip(kinds, own)]
    r = call(lambda: P(*arguments(p, vals)))
    return {'exc': r.exc, 'convex': r.ok and bool(r.val.is_convex()),
            'concave': r.ok and bool(r.val.is_concave())}


def outer(p, P, o):
    x, r = ct.variable(), ct.parameter()
    parts, convex, concave = [], [], []
    out = {'exc': '', 'convex': [], 'concave': [], 'runs': []}

    def write():
        for u in o['uses']:
            vals = []
            for al, be, ga in zip(u['al'], u['be'], u['ga']):
                v = be
                if al:
                    v = v+al*x
                if ga:
                    v = v+ga*r
                vals.append(v)
            q = P(*arguments(p, vals))
            if any(u['al']):
                convex.append(bool(q.is_convex()))
                concave.append(bool(q.is_concave()))
            parts.append(q)
        cost = o['k']*ct.abs(x-o['c'])
        obj = -cost if p['act'] == 'maximize' else cost
        for q in parts:
            obj = obj+q
        return ct.program(getattr(ct, p['act'])(obj),
                          [ct.geq(x, o['lo']), ct.leq(x, o['hi'])])
    w = call(write)
    out['convex'] = sorted(set(convex))
    out['concave'] = sorted(set(concave))
    if not w.ok:
        out['exc'] = w.exc
        return out
    for v in o['rs']:
        r.value = v
        q = call(w.val.solve, quiet=True)
        out['runs'].append({'exc': q.exc, 'x': dec(x.value),
                            'value': dec(q.val) if q.ok else 'nan'})
    return out


def one(s):
    p, ev = s['p'], []
    P, G = program(p)

    def state():
        return (str(P.objective), str(P.constraints), len(P.formals),
                P.action, sorted(map(str, P.variables)),
                sorted(map(str, P.parameters)),
                str(sorted(map(str, P.options.items()))))
    for a, g in zip(s['h'], s['g']):
        if g != 'nan':
            G.value = float(g)
        was = state()
        if a['op'] == 'num':
            vals = [float(v) for v in a['args']]
            r = call(lambda: P(*arguments(p, vals, a['as'] == 'matrix')))
            e = {'exc': r.exc, 'value': dec(r.val) if r.ok else 'nan'}
        elif a['op'] == 'bad':
            e = {'exc': bad(p, P, a['how']).exc}
        elif a['op'] == 'class':
            e = classes(p, P, a['kinds'])
        else:
            e = outer(p, P, a)
        e['altered'] = state() != was
        e['op'] = a['op']
        ev.append(e)
    return ev


def main(*files):
    T = Trace(files[-1])
    for f in files[:-1]:
        for k, sc in enumerate(scenarios(f)):
            r = call(one, sc['s'], _limit=200)
            ev = r.val if r.ok else [dict(op=a['op'], exc=r.exc+r.msg, altered=False, value='nan', convex=[], concave=[], runs=[]) for a in sc['s']['h']]
            T.add(part='call', s=sc['s'], ev=ev, key=str(k))
    T.close()
    print('traces', T.n)


if __name__ == '__main__':
    globals()[sys.argv[1]](*sys.argv[2:])
