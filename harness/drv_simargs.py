"""Driver: argument contract of the simulator (M06)."""
import copy
import sys

import numpy as np

from drvlib import Trace, call, check_origin, rng, same, scenarios, QUICK

check_origin()
from pydsm import delsig


def build(r):
    n, nu, nq = r['order'], r['nu'], r['nq']
    g = np.random.RandomState(n*7+nu*3+nq)
    N = 5
    u = {'vec': np.linspace(-1, 1, N), 'row': np.linspace(-1, 1, N)[None, :],
         'two': np.arange(2.*N).reshape(2, N)/10-.5,
         'cube': np.zeros((2, 2, 2)),
         'str': np.array(['a', 'b'])}[r['u']]
    nlev = {'scalar': 3, 'vec1': np.array([3]), 'vec2': [2, 3],
            'mat': [[2, 3], [2, 2]], 'str': 'two'}[r['nlev']]
    A = np.eye(n)+np.eye(n, k=-1)
    M = np.vstack((np.hstack((A, g.randint(-1, 2, (n, nu+nq)))),
                   np.hstack((np.ones((nq, n)), np.ones((nq, nu)),
                              np.zeros((nq, nq)))))).astype(float)
    if r['extra'] == 1:
        M = np.hstack((M, np.zeros((n+nq, 1))))
    elif r['extra'] == -1:
        M = M[:, :-1]
    z = np.ones(n)
    p = np.zeros(n)
    s = {'abcd': M, 'zpk': (z, p, 1), 'zpklist': [z, p, 1],
         'abcd1d': np.zeros(n+2), 'abcdstr': [['a', 'b'], ['c', 'd']],
         'zpk2d': (z.reshape(1, -1), p.reshape(1, -1), 1)}[r['struc']]
    x0 = {'zero': 0, 'ok': np.ones(n), 'col': np.ones((n, 1)),
          'short': np.ones(n-1), 'long': np.ones(n+1),
          'cube': np.ones((n, 1, 1)), 'str': 'abc', 'scalar': 1.0}[r['x0']]
    return u, s, nlev, x0


def main(scen, out):
    T = Trace(out)
    for j, r in enumerate(scenarios(scen)):
        rr = rng('simargs', j)
        args = build(r)
        keep = copy.deepcopy(args)
        ev = []
        flags = [rr.random() < .5 for _ in range(3)]
        for fl in ([flags] if QUICK else [flags, [True]*3, [False]*3]):
            o = call(delsig.simulateDSM, args[0], args[1], nlev=args[2],
                     x0=args[3], store_xn=fl[0], store_xmax=fl[1],
                     store_y=fl[2], backend=r['backend'])
            ev.append({'op': 'call', 'exc': o.exc, 'msg': o.msg,
                       'mutated': not same(args, keep)})
        T.add(r=r, ev=ev, key=str(j))
    T.close()
    print('traces', T.n)


main(*sys.argv[1:3])
