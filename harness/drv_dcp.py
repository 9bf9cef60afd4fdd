"""Disciplined convex programs of the modeling language."""
import sys

import numpy as np

from drvlib import PART, PARTS, QUICK, Trace, call, check_origin, dec, scenarios

check_origin()
import pydsm.cvxpy_tdr as ct  # noqa: E402

NUM = [0, 1, 2, -1, 0.5, -3]


def mat22(a, b, c, d):
    return ct.vstack((ct.hstack((a, b)), ct.hstack((c, d))))


def mat33(a, b):
    return ct.vstack((ct.hstack((a, 1, 0)), ct.hstack((1, b, 0)),
                      ct.hstack((0, 0, a))))


class World(object):
    """Variables, parameters, and programs used as functions."""

    def __init__(self, p='-2', n='1.5', m='-0.5', values=True):
        self.x = ct.variable(name='x')
        self.y = ct.variable(name='y')
        self.p = ct.parameter(name='p')
        self.n = ct.parameter(attribute='nonnegative', name='n')
        self.m = ct.parameter(attribute='nonpositive', name='m')
        if values:
            self.assign(p, n, m)
        t = ct.variable()
        f = ct.variable()
        self.Q1 = ct.program(ct.minimize(t), [ct.leq(f, t), ct.leq(-f, t)],
                             formals=[f])
        # the formal arguments are variables which also get used outside
        self.Q2 = ct.program(ct.minimize(2*self.x+self.y), [],
                             formals=[self.x, self.y])
        w = ct.variable()
        self.Q3 = ct.program(ct.minimize(ct.square(f-w)+ct.abs(w)), [],
                             formals=[f])
        u = ct.variable()
        self.Q4 = ct.program(ct.maximize(u), [ct.leq(u, f), ct.leq(u, 2-f)],
                             formals=[f])
        v = ct.vstack
        self.fns = {
            'abs': ct.abs, 'square': ct.square, 'sqrt': ct.sqrt,
            'exp': ct.exp, 'log': ct.log, 'huber': ct.huber,
            'huber2': lambda a: ct.huber(a, 2),
            'pos1': lambda a: ct.power_pos(a, 1),
            'pos2': lambda a: ct.power_pos(a, 2),
            'pos3': lambda a: ct.power_pos(a, 3),
            'pabs1': lambda a: ct.power_abs(a, 1),
            'pabs3': lambda a: ct.power_abs(a, 3),
            'pow1': lambda a: ct.power_p(a, 1),
            'pow2': lambda a: ct.power_p(a, 2),
            'lncdf': ct.log_norm_cdf,
            'Q1': self.Q1, 'Q2': self.Q2, 'Q3': self.Q3, 'Q4': self.Q4,
            'max': lambda a, b: ct.max(v((a, b))),
            'min': lambda a, b: ct.min(v((a, b))),
            'norm1': lambda a, b: ct.norm1(v((a, b))),
            'norm2': lambda a, b: ct.norm2(v((a, b))),
            'norminf': lambda a, b: ct.norm_inf(v((a, a, b))),
            'qol': ct.quad_over_lin,
            'lse': lambda a, b: ct.log_sum_exp(v((a, b))),
            'gm': lambda a, b: ct.geo_mean(v((a, b))),
            'kl': ct.kl_div,
            'lmax': lambda a, b: ct.lambda_max(mat22(a, 1, 1, b)),
            'lmin': lambda a, b: ct.lambda_min(mat22(a, 1, 1, b)),
            'qform': lambda a, b: ct.quad_form(v((a, b)), ct.matrix(
                [[2., 1.], [1., 2.]])),
            'nuc': lambda a, b: ct.nuclear_norm(mat22(a, 0, 0, b)),
            'spec': lambda a, b: ct.norm2(mat22(a, 0, 0, b)),
            'det': lambda a, b: ct.det_rootn(mat22(a, 1, 1, b)),
            'gm3': lambda a, b: ct.geo_mean(v((a, b, a))),
            'gm5': lambda a, b: ct.geo_mean(v((a, b, a, b, a))),
            'lse3': lambda a, b: ct.log_sum_exp(v((a, b, a))),
            'max3': lambda a, b: ct.max(mat22(a, b, b, a)),
            'min3': lambda a, b: ct.min(mat22(a, b, b, a)),
            'n2x': lambda a, b: ct.norm2(v((a, b, a))),
            'n1x': lambda a, b: ct.norm1(v((a, b, a))),
            'qf2': lambda a, b: ct.quad_form(v((a, b)), ct.matrix(
                [[1., 1.], [1., 1.]])),
            'kl2': lambda a, b: ct.kl_div(v((a, b)), v((b, a))),
            'lmax3': lambda a, b: ct.lambda_max(mat33(a, b)),
            'lmin3': lambda a, b: ct.lambda_min(mat33(a, b)),
            'nucs': lambda a, b: ct.nuclear_norm(mat22(a, b, b, a)),
            'specs': lambda a, b: ct.norm2(mat22(a, b, b, a)),
            'det3': lambda a, b: ct.det_rootn(mat33(a, b)),
            'sqs': lambda a, b: ct.sum(ct.square(v((a, b)))),
            'exps': lambda a, b: ct.sum(ct.exp(v((a, b)))),
            'logs': lambda a, b: ct.sum(ct.log(v((a, b)))),
            'pos2s': lambda a, b: ct.sum(ct.power_pos(v((a, b)), 2)),
            'hubs': lambda a, b: ct.sum(ct.huber(v((a, b)))),
            'abss': lambda a, b: ct.sum(ct.abs(v((a, b)))),
            'sqrts': lambda a, b: ct.sum(ct.sqrt(v((a, b))))}

    def assign(self, p, n, m):
        self.p.value = float(p)
        self.n.value = float(n)
        self.m.value = float(m)

    def member(self, name, q):
        v = ct.vstack
        if name.startswith('sdc'):
            a, b, c = q
            x = mat22(a, b, b, c) if name == 'sdc' else v((
                ct.hstack((a, 0, 1)), ct.hstack((0, b, 0)),
                ct.hstack((1, 0, c)))) if name == 'sdcn' else v((
                ct.hstack((a, b, 0)), ct.hstack((b, c, 0)),
                ct.hstack((0, 0, a))))
            return ct.belongs(x, ct.semidefinite_cone)
        if name in ('soc3', 'gmc3'):
            q = [q[0], q[1], q[0], q[2]]
        elif name == 'klc2':
            q = [q[0], q[1], q[1], q[0], q[2]]
        return ct.belongs(v(tuple(q)), {
            'soc': ct.second_order_cone, 'exp': ct.exp_cone,
            'gmc': ct.geo_mean_cone, 'klc': ct.kl_div_epi,
            'lncdfh': ct.log_norm_cdf_hypo, 'ppos2': ct.power_pos_epi(2),
            'ppos3': ct.power_pos_epi(3)}[name[:3] if name[:3] in (
                'soc', 'gmc', 'klc') else name])

    def build(self, e):
        o = e[0]
        if o == 'num':
            return NUM[e[1]]
        if o == 'fn':
            return self.fns[e[1]](*[self.build(a) for a in e[2]])
        if o in ('x', 'y', 'p', 'n', 'm'):
            return getattr(self, o)
        a = self.build(e[1])
        if o == 'neg':
            return -a
        b = self.build(e[2])
        return a+b if o == 'add' else a-b if o == 'sub' else a*b


def flag(f, o):
    return True if np.isscalar(o) else bool(getattr(o, f)())


def classify(e):
    r = call(classify_, e, _limit=60)
    if r.exc:
        return {'e': e, 'exc': r.exc, 'affine': False, 'convex': False,
                'concave': False, 'dcp': False, 'minimize': False,
                'maximize': False, 'solve': ''}
    return r.val


def classify_(e):
    w = World()
    ev = {'e': e, 'exc': '', 'affine': False, 'convex': False,
          'concave': False, 'dcp': False, 'minimize': False,
          'maximize': False, 'solve': ''}
    try:
        if e[0] == 'rel':
            a, b = w.build(e[2]), w.build(e[3])
        else:
            o = w.build(e)
    except (ValueError, TypeError, NotImplementedError) as ex:
        ev['exc'] = type(ex).__name__
        return ev
    try:
        if e[0] == 'rel':
            c = getattr(ct, e[1])(a, b)
            ev['dcp'] = bool(c.is_dcp())
            ev['minimize'] = bool(ct.program(ct.minimize(w.x), [c]).is_dcp())
            return ev
        for f in ('affine', 'convex', 'concave', 'dcp'):
            ev[f] = flag('is_' + f, o)
        for f in ('minimize', 'maximize'):
            p = ct.program(getattr(ct, f)(o), [ct.leq(w.x, 1)])
            ev[f] = bool(p.is_dcp())
            if not ev[f]:
                try:
                    p.solve(quiet=True)
                    ev['solve'] = 'solved'
                except ValueError:
                    pass
    except Exception as ex:
        ev['exc'] = type(ex).__name__
    return ev


def x02(*files):
    T = Trace(files[-1])
    for f in files[:-1]:
        group = []
        for k, sc in enumerate(scenarios(f)):
            group.append(classify(sc['e']))
            if len(group) == 40:
                T.add(part='class', ev=group, key='class%d' % k)
                group = []
        if group:
            T.add(part='class', ev=group, key='class')
    T.close()
    print('traces', T.n)


def num(e):
    w = World()
    r = call(w.build, e)
    return {'exc': r.exc, 'value': dec(r.val) if r.ok else 'nan',
            'solver': not r.ok and 'cvxopt' in r.where}


def solve(s, h):
    """One program, solved again and again as the parameters change."""
    w = World(values=False)
    e = w.build(s['e'])
    cs = [ct.eq(w.y, float(s['k'])*w.x+float(s['c']))]
    if s['lo'] != '-inf':
        cs.append(ct.geq(w.x, float(s['lo'])))
    if s['hi'] != 'inf':
        cs.append(ct.leq(w.x, float(s['hi'])))
    if s['con'][0] == 'in':
        cs.append(w.member(s['con'][1], [w.build(a) for a in s['con'][2]]))
    elif s['con'][0] != 'none':
        cs.append(getattr(ct, s['con'][0])(w.build(s['con'][1]),
                                           w.build(s['con'][2])))
    p = ct.program(getattr(ct, s['act'])(e), cs)
    out = []
    for v in h:
        w.assign(v['p'], v['n'], v['m'])
        r = call(p.solve, quiet=True, return_status=True)
        # raised (or never ended) within the solver?
        ev = {'v': v, 'exc': r.exc, 'value': 'nan', 'valid': False,
              'solver': 'cvxopt' in r.where or 'Unable' in r.msg,
              'x': dec(w.x.value), 'y': dec(w.y.value)}
        if r.ok:
            ev['value'], ev['valid'] = dec(r.val[0]), bool(r.val[1])
        out.append(ev)
    return out


def x03(*files):
    T = Trace(files[-1])
    for f in files[:-1]:
        for k, sc in enumerate(scenarios(f)):
            s = sc['s']
            if sc['part'] == 'num':
                ev = [num(s)]
            else:
                r = call(solve, s, sc['h'], _limit=200)
                ev = r.val if r.ok else [
                    {'v': sc['h'][-1], 'exc': r.exc, 'value': 'nan',
                     'solver': 'cvxopt' in r.where, 'valid': False, 'x': 'nan', 'y': 'nan'}]
            T.add(part=sc['part'], s=s, ev=ev, key=str(k))
    T.close()
    print('traces', T.n)


if __name__ == '__main__':
    globals()[sys.argv[1]](*sys.argv[2:])
