"""Expressions of the modeling language."""
import sys

import numpy as np

from drvlib import PART, PARTS, QUICK, Trace, check_origin, scenarios

check_origin()
import pydsm.cvxpy_tdr as ct  # noqa: E402

# Assignments: as in the specification
BASE = {'X': (1, -2), 'S': (4, 3), 'L': (7, 1), 'U': (2, -7), 'V': (-3, 8),
        'W': (5, -5), 'B': (-6, 6), 'P': (9, 11)}
SHAPE = {'X': (2, 2), 'S': (2, 2), 'L': (2, 2), 'U': (2, 2), 'V': (2, 1),
         'W': (1, 2), 'B': (2, 3), 'P': (2, 2)}
STRUCT = {'S': 'symmetric', 'L': 'lower_triangular', 'U': 'upper_triangular'}
SCA = {'x': (2, -1), 'y': (-3, 5), 'p': (4, -2), 'q': (3, 0)}
NUM = [0, 1, 2, -3, -1, 4, 10]


def leaves():
    r = {}
    for n in SCA:
        r[n] = (ct.variable if n in 'xy' else ct.parameter)(name=n)
    for n, (i, j) in SHAPE.items():
        if n == 'P':
            r[n] = ct.parameter(i, j, name=n)
        else:
            r[n] = ct.variable(i, j, STRUCT.get(n), name=n)
    r['M'] = ct.matrix([[1, -2], [0, 3]])
    r['N'] = ct.matrix([[2, 0, -1], [4, 1, 0]])
    r['C'] = ct.matrix([[3], [-1]])
    r['E'] = ct.spmatrix(np.array([[0, 3.], [0, -1]]))
    r['G'] = ct.spmatrix((3, 2))
    r['G'][0, 1] = 2
    r['G'][1, 0] = 5
    return r


def assign(r, a):
    for n, v in SCA.items():
        r[n].value = float(v[a])
    for n, (m, k) in SHAPE.items():
        for i in range(m):
            for j in range(k):
                x = r[n][i, j]
                if np.isscalar(x):
                    continue
                if n == 'S':
                    i1, j1 = max(i, j)+1, min(i, j)+1
                else:
                    i1, j1 = i+1, j+1
                x.value = float(BASE[n][a] + (2*i1-3*j1 if a == 0
                                              else -5*i1+4*j1))


def rngs(t):
    return slice(t[0], t[1], t[2])


def build(e, r, num):
    o = e[0]
    if o == 'num':
        return num(NUM[e[1]])
    if o in r:
        return r[o]
    a = build(e[1], r, num)
    if o in ('add', 'sub', 'mul', 'hstack', 'vstack', 'equals', 'leq', 'geq'):
        b = build(e[2], r, num)
        if o == 'add':
            return a+b
        if o == 'sub':
            return a-b
        if o == 'mul':
            return a*b
        if o in ('hstack', 'vstack'):
            return getattr(ct, o)((a, b))
        return getattr(ct, o)(a, b)
    if o == 'neg':
        return -a
    if o == 'T':
        return a.T
    if o == 'get':
        return a[e[2], e[3]]
    if o == 'slice':
        return a[rngs(e[2]), rngs(e[3])]
    if o == 'reshape':
        return ct.reshape(a, (e[2], e[3]))
    return getattr(ct, o)(a)


class Unusable(Exception):
    pass


def whole(x):
    if isinstance(x, (str, bytes)) or not np.isscalar(x):
        raise Unusable()
    if abs(x-round(x)) > 1e-9:
        return 99999999
    return int(round(x))


def values(x):
    """Shape and values of an object."""
    if not np.isscalar(x) and hasattr(x, 'value'):
        x = x.value
    if np.isscalar(x):
        return [1, 1], [whole(x)]
    if hasattr(x, 'todense'):
        x = x.todense()
    x = np.asarray(x)
    if x.ndim != 2:
        raise Unusable()
    if x.dtype == object:
        x = np.array([[whole(v) for v in row] for row in x])
    return list(x.shape), [whole(v) for v in x.reshape(-1)]


def names(x, what):
    if np.isscalar(x) or not hasattr(x, what):
        return []
    return sorted(v.name for v in getattr(x, what))


def snap(r):
    out = []
    for a in (0, 1):
        assign(r, a)
        out.append([values(r[n]) for n in sorted(r)])
    return out


REL = {'==': 'equals', '<=': 'leq', '>=': 'geq'}


def expr(e, num):
    r = leaves()
    q = {'e': e, 'exc': '', 'mutated': False, 'shape': [], 'y': [[], []],
         'vars': [], 'pars': [], 'types': [], 'left': [[], []],
         'right': [[], []]}
    base = snap(r)
    kids = []
    try:
        # Operands are built first, so as to see if they change
        for k in e[1:]:
            if isinstance(k, list) and k and isinstance(k[0], str) and k[
                    0] != 'num' and len(k) > 1:
                x = build(k, r, num)
                try:
                    v = values(x)
                except Exception:
                    continue
                kids.append((x, v))
        if len(e) > 1 and isinstance(e[1], list) and kids:
            x = top(e, r, num, kids)
        else:
            x = build(e, r, num)
        if e[0] in REL.values():
            c = x if isinstance(x, list) else [x]
            q['types'] = [REL[k.type] for k in c]
            vs = set()
            for a in (0, 1):
                assign(r, a)
                for k in c:
                    q['left'][a] += values(k.left)[1]
                    q['right'][a] += values(k.right)[1]
                    vs |= set(v.name for v in k.variables)
            q['vars'] = sorted(vs)
        else:
            for a in (0, 1):
                assign(r, a)
                q['shape'], q['y'][a] = values(x)
            q['vars'] = names(x, 'variables')
            q['pars'] = names(x, 'parameters')
        assign(r, 1)
        q['mutated'] = any(values(x) != v for x, v in kids)
    except Exception as x:
        q['exc'] = type(x).__name__
    q['mutated'] = q['mutated'] or snap(r) != base
    return q


def top(e, r, num, kids):
    """As build, with the operands in kids where they are compound."""
    r2 = dict(r)
    e2, n = list(e), 0
    for k in range(1, len(e)):
        x = e[k]
        if isinstance(x, list) and x and isinstance(x[0], str) and x[
                0] != 'num' and len(x) > 1 and n < len(kids):
            r2['#%d' % n] = kids[n][0]
            e2[k] = ['#%d' % n]
            n += 1
    return build(e2, r2, num)


VAL = {'neg': -2., 'zero': 0., 'pos': 3., 'nan': float('nan')}


def sign(v):
    return 'nan' if v != v else 'neg' if v < 0 else 'pos' if v > 0 else 'zero'


def param(h):
    a = h[0]['attr']
    ps = [ct.parameter(attribute=None if a == 'none' else a),
          ct.parameter(2, 1, None if a == 'none' else a)[1, 0]]
    out = []
    for x in h[1:]:
        seen = []
        for p in ps:
            exc = ''
            try:
                if x['o'] == 'value':
                    p.value = VAL[x['a']]
                else:
                    p.attribute = None if x['a'] == 'none' else x['a']
            except Exception as ex:
                exc = type(ex).__name__
            seen.append((exc, p.attribute or 'none', sign(p.value)))
        exc, at, v = seen[0] if seen[0] == seen[1] else (
            'arrays differ from scalars', '', '')
        out.append({'x': x, 'exc': exc, 'attr': at, 'val': v})
    return out


def sparse(h):
    x = ct.variable(name='x')
    one = ct.variable(name='one')
    m = ct.spmatrix((2, 2))
    m[0, 0] = 1.
    m[1, 1] = 1.
    s = one*m
    s[0, 0] = 5.
    s[1, 1] = 5.
    ent = {'zero': 0., 'five': 5., 'x': x}
    out = []
    for q in h:
        ev = {'x': q, 'exc': '', 'y': [], 'got': [], 't': [], 'nnz': -1,
              'vars': []}
        try:
            s[q['c'][0], q['c'][1]] = ent[q['a']]
            for a in (2., -1.):
                x.value = a
                ev['y'].append(values(s)[1])
                ev['got'].append([values(s[i, j])[1][0] for i in range(2)
                                  for j in range(2)])
                ev['t'].append(values(s.T)[1])
            ev['nnz'] = s.nnz
            ev['vars'] = names(s, 'variables')
        except Exception as e:
            ev['exc'] = type(e).__name__
            ev['y'] = ev['got'] = ev['t'] = [[], []]
        out.append(ev)
    return out


def x01(*files):
    T = Trace(files[-1])
    for f in files[:-1]:
        group = []
        for k, sc in enumerate(scenarios(f)):
            if sc['part'] == 'param':
                T.add(part='param', h=sc['h'], ev=param(sc['h']),
                      key='param%d' % k)
            elif sc['part'] == 'sparse':
                T.add(part='sparse', h=sc['h'], ev=sparse(sc['h']),
                      key='sparse%d' % k)
            else:
                # numbers as floats or integers
                group.append(expr(sc['e'], float if k % 2 else int))
                if len(group) == 40:
                    T.add(part='expr', h=[], ev=group, key='expr%d' % k)
                    group = []
        if group:
            T.add(part='expr', h=[], ev=group, key='expr')
    T.close()
    print('traces', T.n)


if __name__ == '__main__':
    globals()[sys.argv[1]](*sys.argv[2:])
