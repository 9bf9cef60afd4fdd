"""Driver: NTFs whose numerator solves an optimization problem (D01-D03).

Together with the answers of the designers, the driver records where an
answer could exceed the allowed gain and multipliers for the dual problem.
Nothing depends on these being right: the specification derives a bound
from them that is valid whatever they are (a poor choice may only make the
check fail, so they come from a separate solution of a discretized problem)."""
import sys
import warnings

import numpy as np
from scipy.optimize import minimize_scalar, nnls

from drvlib import (PART, Batch, call, check_origin, cvec, dec, nprng, rng,
                    same, scenarios, vec, QUICK)

check_origin()
import copy
import cvxopt
import cvxopt.solvers
from pydsm import audio_weightings
from pydsm.NTFdesign import (ntf_fir_weighting, ntf_fir_minmax,
                             ntf_hybrid_weighting, ntf_fir_audio_weighting,
                             ntf_dunn)
from pydsm.NTFdesign.weighting import ntf_fir_from_q0
from pydsm.NTFdesign.psychoacoustic import dunn_optzeros, dunn_optzeros_cplx

warnings.simplefilter('ignore')


# ---------------------------------------------------------------- reference
def gain2(h, w):
    return abs(np.polyval(h, np.exp(1j*np.asarray(w))))**2


def peaks(h, a, lo=0., hi=np.pi):
    """Frequencies of the local maxima of |X/A| within a range."""
    K = max(48*len(h), 200)
    w = np.linspace(lo, hi, K+1)
    f = lambda x: gain2(h, x)/gain2(a, x)
    g = f(w)
    out = []
    for i in range(K+1):
        if (i == 0 or g[i] >= g[i-1]) and (i == K or g[i] >= g[i+1]):
            r = minimize_scalar(lambda x: -f(x), method='bounded', bounds=(
                w[max(i-1, 0)], w[min(i+1, K)]), options={'xatol': 1e-11})
            out.append(w[i] if g[i] >= -r.fun else r.x)
    return np.array(out)


def zrows(zf, n):
    m = np.arange(n+1)
    R = np.array([np.cos(2*np.pi*f*m) for f in zf] +
                 [np.sin(2*np.pi*f*m) for f in zf]).reshape(-1, n+1)
    R[abs(R) < 1e-12] = 0
    return R


def socp(n, a, H, wp, obj, wb, zf, acc):
    """Discretized problem: obj is a square root of Q or None (min-max)."""
    m = np.arange(n+1)
    G, h = [], []

    def cone(w, top, tcol):
        u = np.exp(-1j*w*m)
        A = np.zeros((3, n+1))
        b = np.zeros(3)
        A[0, n] = -tcol
        b[0] = top
        A[1, :n], A[2, :n] = -u[1:].real, -u[1:].imag
        b[1], b[2] = u[0].real, u[0].imag
        G.append(A), h.append(b)
    for w in wp:
        cone(w, H*np.sqrt(gain2(a, w)), 0)
    for w in wb:
        cone(w, 0, 1)
    if obj is not None:
        A = np.zeros((n+2, n+1))
        A[0, n] = -1
        A[1:, :n] = -obj[:, 1:]
        G.append(A), h.append(np.r_[0, obj[:, 0]])
    c = np.zeros(n+1)
    c[n] = 1
    kw = {}
    R = zrows(zf, n)
    R = R[abs(R[:, :]).max(1) > 1e-9] if len(R) else R
    if len(R):
        A = np.c_[R[:, 1:], np.zeros(len(R))]
        q, r = np.linalg.qr(A.T)
        keep = abs(np.diag(r)) > 1e-9
        if not keep.all() or len(R) > n:
            return None, None
        kw = dict(A=cvxopt.matrix(A), b=cvxopt.matrix(-R[:, 0]))
    keep = dict(cvxopt.solvers.options)
    cvxopt.solvers.options.clear()
    cvxopt.solvers.options.update(show_progress=False, maxiters=100,
                                  abstol=acc, reltol=10*acc, feastol=10*acc)
    try:
        s = cvxopt.solvers.socp(
            cvxopt.matrix(c), Gq=[cvxopt.matrix(x) for x in G],
            hq=[cvxopt.matrix(x) for x in h], **kw)
    finally:
        cvxopt.solvers.options.clear()
        cvxopt.solvers.options.update(keep)
    if s['x'] is None:
        return None, None
    # multipliers of the cones
    t = float(s['x'][n])
    z = np.array([abs(float(v[0])) for v in s['zq']])
    if t > 0 and np.isfinite(z).all():
        la = z[:len(wp)]*t/np.array([x[0] for x in h[:len(wp)]]+[1.])[
            :len(wp)]
        nu = z[len(wp):len(wp)+len(wb)]
        dual = la, wp, nu, wb
    else:
        dual = None
    return np.r_[1, np.array(s['x']).ravel()[:n]], dual


def multipliers(x, n, a, H, q, bands, zf):
    """Multipliers that make x stationary; bound they give (in doubles)."""
    m = np.arange(n+1)
    T = lambda t: t[abs(np.subtract.outer(m, m))]
    row = lambda w: 2*(T(np.cos(w*m))@x)[1:]
    pk = peaks(x, a) if np.isfinite(H) else np.zeros(0)
    if len(pk):
        pk = pk[gain2(x, pk) >= .98*H*H*gain2(a, pk)]
    R = zrows(zf, n)
    if q is not None:
        pb = np.zeros(0)
        sc = 1/max(np.sqrt(x@T(q)@x), 1e-12)
        rhs = -2*(T(q)@x)[1:]*sc
    else:
        pb = np.concatenate(
            [peaks(x, [1.], 2*np.pi*l, 2*np.pi*u) for l, u in bands] +
            [[2*np.pi*l, 2*np.pi*u] for l, u in bands])
        g = gain2(x, pb)
        pb = pb[g >= .7*g.max()]
        sc = 1/np.sqrt(g.max())
        rhs = np.zeros(n)
    cols = [row(w) for w in np.r_[pb, pk]]
    cols += [v[1:] for v in R]+[-v[1:] for v in R]
    if cols:
        A = np.array(cols).T*sc
        if q is None:
            rest = np.zeros(A.shape[1]-len(pb))
            slack = 1-gain2(x, pb)/g.max()
            A = np.vstack([A, np.r_[np.ones(len(pb)), rest]*1e2,
                           np.r_[slack, rest]*1e2])
            rhs = np.r_[rhs, 1e2, 0]
        try:
            mu = nnls(A, rhs, maxiter=20000)[0]
        except RuntimeError:
            mu = np.ones(A.shape[1])/max(1, len(pb))
    else:
        mu = np.zeros(0)
    nu, la = mu[:len(pb)], mu[len(pb):len(pb)+len(pk)]
    return bound((la, pk, nu, pb), n, a, H, q, bands, zf)


def bound(dual, n, a, H, q, bands, zf):
    la, pk, nu, pb = dual
    R = zrows(zf, n)
    m = np.arange(n+1)
    T = lambda t: t[abs(np.subtract.outer(m, m))]
    k = la > 1e-12*max(la.sum(), 1e-30)
    la, pk = la[k], pk[k]
    if q is None:
        if nu.sum() <= 0:
            nu = np.ones(len(pb))
        nu = nu/nu.sum()
        k = nu > 1e-12
        nu, pb = nu[k]/nu[k].sum(), pb[k]
    t = np.zeros(n+1) if q is None else q
    t = t+sum((l*np.cos(w*m) for l, w in zip(np.r_[nu, la], np.r_[pb, pk])),
              np.zeros(n+1))
    M = T(t)
    V, v0 = R[:, 1:], R[:, 0]
    K = np.block([[2*M[1:, 1:], V.T], [V, np.zeros((len(V), len(V)))]])
    y = np.linalg.lstsq(K, np.r_[-2*M[1:, 0], -v0], rcond=1e-14)[0]
    s, y = y[n:], np.r_[1, y[:n]]
    if len(V):     # the zeros may be impossible
        res = V@y[1:]+v0
        if np.linalg.norm(res) > 1e-3:
            xs = np.linalg.lstsq(V, -v0, rcond=1e-12)[0]
            res = V@xs+v0
            s = s+res*1e4/(res@res)
    pen = H*H*(la@gain2(a, pk)) if len(pk) else 0.
    L = y@M@y-pen+s@(R@y)
    gr = 2*(M@y)[1:]+V.T@s
    rad = min(np.sqrt(float(binom(2*n, n))), H*abs(np.asarray(a)).sum())
    lb = L-np.linalg.norm(gr)*(rad+np.linalg.norm(y))
    hint = {'la': vec(la), 'fa': vec(pk/(2*np.pi)), 'nu': vec(nu),
            'fn': vec(fin(pb/(2*np.pi), bands)), 's': vec(s), 'y': vec(y)}
    return lb, hint


def fin(f, bands):
    """Frequencies moved by rounding errors back in their band."""
    for l, u in bands:
        f = np.where(abs(f-l) < 1e-9, l+1e-13, np.where(
            abs(f-u) < 1e-9, u-1e-13, f))
    return f


def binom(n, k):
    from math import comb
    return comb(n, k)


def reference(n, a, H, q=None, bands=(), zf=()):
    """Best multipliers found for a problem; bound, solution."""
    a = np.asarray(a, float)
    wp = np.linspace(0, np.pi, 4*n+8) if np.isfinite(H) else np.zeros(0)
    wb = np.concatenate([2*np.pi*np.linspace(l, u, 4*n+8)
                         for l, u in bands]) if q is None else np.zeros(0)
    sq = None
    if q is not None:
        m = np.arange(n+1)
        d, v = np.linalg.eigh(q[abs(np.subtract.outer(m, m))])
        sq = (v*np.sqrt(np.maximum(d, 0))).dot(v.T)/np.sqrt(q[0])
    best = None
    for it in range(10):
        x = None
        for acc in (1e-7, 1e-9, 1e-11):
            try:
                xx, dual = socp(n, a, H, wp, sq, wb, zf, acc)
            except (ValueError, ArithmeticError, TypeError):
                continue
            if xx is None or not np.isfinite(xx).all():
                continue
            x = xx
            cand = [multipliers(x, n, a, H, q, bands, zf)]
            if dual:
                if q is not None:     # the norm is scaled in the problem
                    dual = (dual[0]*q[0],)+dual[1:]
                cand.append(bound(dual, n, a, H, q, bands, zf))
            for lb, hint in cand:
                if best is None or lb > best[0]:
                    best = lb, hint, x
        if x is None:
            break
        pk = peaks(x, a) if np.isfinite(H) else np.zeros(0)
        pb = np.concatenate([peaks(x, [1.], 2*np.pi*l, 2*np.pi*u)
                             for l, u in bands]) if q is None else pk[:0]
        # how far the solution is from the bound and from being feasible
        if q is not None:
            v = x@q[abs(np.subtract.outer(np.arange(n+1), np.arange(n+1)))]@x
        else:
            v = gain2(x, pb).max()
        ex = (gain2(x, pk)/gain2(a, pk)/H**2).max() if len(pk) else 1.
        if v < best[0]*(1+2e-5) and ex < 1+1e-5:
            break
        wp, wb = np.r_[wp, pk], np.r_[wb, pb]
    return best


# ---------------------------------------------------------------- solutions
def runs(r, many, scs=True):
    """Random choices of modelers and solvers."""
    out = [('cvxpy_old', {}), ('cvxpy', {}), ('picos', {})]
    if scs:
        out.append(('cvxpy', {'cvxpy_opts': {'solver': 'scs'}}))
    out = [(m, dict(kw, modeler=m)) for m, kw in out]
    if r.random() < .5:
        out[0] = ('cvxpy_old', {})
    return out if many else r.sample(out, 2)


def solve(f, args, kw, a, base):
    """Call f; fields of one solution of the trace."""
    keep = copy.deepcopy((args, kw))
    o = call(f, *args, _limit=100, **dict(kw, show_progress=False))
    mutated = not same(keep, (args, kw))
    s = {'md': base, 'exc': o.exc, 'msg': o.msg, 'z': [], 'p': [], 'k': 'nan',
         'at': []}
    if o.ok:
        try:
            z, p, k = o.val
            s.update(z=cvec(z), p=cvec(p), k=dec(k))
            h = np.real(np.poly(z))
            s['at'] = vec(peaks(h, a)/(2*np.pi))
            s['h'] = h
        except Exception as x:
            s.update(exc='unusable result', msg=repr(x))
    return s, mutated, o


def emit(B, e, sols, mutated):
    for s in sols:
        s.pop('h', None)
    e.update(sols=sols, mutated=mutated)
    B.ev.append(e)
    if len(B.ev) >= B.size:
        B.flush()


def refused(B, f, args, kw, text):
    o = call(f, *args, **dict(kw, show_progress=False))
    B.ev.append({'op': 'refused', 'exc': o.exc, 'msg': o.msg, 'text': text,
                 'mutated': False})


def weighted(B, n, w, f, args, kws, poles, H, q, extra=()):
    """All the solutions of a problem of weighted noise."""
    a = np.real(np.poly(poles)) if len(poles) else np.ones(1)
    best = reference(n, a, H, q=np.asarray(q, float))
    sols, mut = [], False
    for md, kw in kws:
        s, m, o = solve(f, args, dict(kw, H_inf=H, **dict(extra)), a, md)
        sols.append(s)
        mut = mut or m
    pp = np.r_[np.asarray(poles, complex), np.zeros(n-len(poles))]
    emit(B, {'op': 'weighted', 'n': n, 'w': w, 'poles': cvec(pp),
             'H': dec(H), 'd': [best[1]] if best else [], 'rel': '5e-4',
             'abs': '3e-6'}, sols, mut)


def stepfun(e, l):
    def w(f):
        return float(l[min(max(np.searchsorted(e, f, side='right')-1, 0),
                           len(l)-1)])
    return w


def gauge(r, s):
    return {'auto': ['auto'], 'none': [None], 'real': [
        r.choice([.5, 2., 1.])]}[s]


def hinf(r, k):
    return {'low': r.uniform(1.08, 1.4), 'mid': r.choice(
        [1.5, 1.5, r.uniform(1.4, 2)]), 'high': r.uniform(2.5, 5),
        'inf': np.inf}[k]


def d01(scen, out):
    B = Batch(out, 'weighted', 6)
    r, g = rng('d01'), nprng('d01')
    for rep in range(1 if QUICK else 3):
        for s in scenarios(scen):
            n, H = s['order'], round(hinf(r, s['hinf']), 3)
            poles, kw = [], {}
            norm = gauge(r, s['norm'])[0]
            if norm != 'auto' or r.random() < .2:
                kw['normalize'] = norm
            if r.random() < .25:
                kw['fix_pos'] = True
            many = (not QUICK) or r.random() < .15
            kws = runs(r, many, scs=(n <= 6 and s['hinf'] != 'high'))
            if s['w'] == 'q0':
                c = g.randn(r.randrange(1, n+3))
                q = np.correlate(c, c, 'full')[len(c)-1:][:n+1]
                q = np.r_[q, np.zeros(n+1-len(q))]
                q[0] *= 1+r.choice([1e-1, 1e-3])
                q = np.round(q/q[0]*r.choice([1., .3, 7]), 12)
                weighted(B, n, {'kind': 'q0', 'q': vec(q)}, ntf_fir_from_q0,
                         [q], kws, [], H, q, kw)
                continue
            hyb = s['poles'] > 0 or r.random() < .2
            f = ntf_hybrid_weighting if hyb else ntf_fir_weighting
            if s['poles'] == 1:
                poles = [round(r.uniform(-.75, .75), 2)]
            elif s['poles'] == 2:
                p = r.uniform(.2, .75)*np.exp(1j*r.uniform(.3, 2.8))
                poles = [complex(p), complex(p.conjugate())]
            if hyb and (len(poles) or r.random() < .5):
                kw['poles'] = poles if r.random() < .6 else np.array(poles)
            if s['w'] == 'steps':
                m = r.randrange(1, 4)
                e = np.r_[0, np.sort(np.round(g.uniform(.02, .48, m), 3)), .5]
                l = np.round(10**g.uniform(-3, 0, m+1), 4)
                l[r.randrange(m+1)] = 1.
                if r.random() < .4:
                    # a narrow signal band
                    c = r.choice([0, 0, .5, .2])
                    h = .5/r.choice([4, 8, 16, 32])
                    e = np.unique(np.round(np.clip(
                        [0, c-h, c+h, .5], 0, .5), 6))
                    l = np.where((e[:-1] >= c-h-1e-5) & (e[1:] <= c+h+1e-5),
                                 1., r.choice([1e-3, 1e-5, 1e-6]))
                kw['quad_opts'] = {'points': list(e[1:-1])}
                w = stepfun(e, l)
                rec = {'kind': 'steps', 'e': vec(e), 'l': vec(l)}
            else:
                nz, np_ = r.randrange(0, 3), r.randrange(0, 3)
                hz = g.uniform(-1, 1, nz)
                if np_ == 2:
                    p = r.uniform(.2, .7)*np.exp(1j*r.uniform(.1, 3))
                    hp = np.array([p, p.conjugate()])
                else:
                    hp = g.uniform(-.7, .7, np_)
                if r.random() < .3:
                    # a narrow signal band
                    c = r.uniform(.9, .97)
                    t = r.choice([0, 0, r.uniform(.2, 3)])
                    hp = np.array([c-.03, c]) if t == 0 else c*np.exp(
                        1j*t*np.array([1, -1]))
                k = r.uniform(.3, 3)
                b = np.atleast_1d(k*np.real(np.poly(hz)))
                a = np.atleast_1d(np.real(np.poly(hp)))
                w = (hz, hp, k) if r.random() < .5 else (b, a)
                rec = {'kind': 'filter', 'b': vec(b), 'a': vec(a)}
            if s['w'] == 'steps':
                q = q0_steps(e, l, n)
            else:
                q = q0_filter(b, a, np.real(np.poly(poles)) if len(poles)
                              else np.ones(1), n)
            weighted(B, n, rec, f, [n, w], kws, poles, H, q, kw)
    if PART:
        return B.close()
    for f, a in ((ntf_fir_from_q0, [np.array([1., .5, .2])]),
                 (ntf_fir_weighting, [3, ([], [], 1.)]),
                 (ntf_hybrid_weighting, [3, ([], [], 1.)])):
        for md in ('cvx', 'CVXPY', None, ''):
            refused(B, f, a, {'modeler': md}, '')
    for n in (1, 2, 3, 5):
        for x in (1, 3):
            p = list(np.round(g.uniform(-.6, .6, n+x), 3))
            refused(B, ntf_hybrid_weighting, [n, lambda f: 1.],
                    {'poles': p}, 'Too many poles provided')
    B.close()


def q0_steps(e, l, n):
    m = np.arange(1, n+1)
    q = [2*np.sum(l*np.diff(e))]
    q += [np.sum(l*np.diff(np.sin(2*np.pi*k*e)))/(np.pi*k) for k in m]
    return np.array(q)


def q0_filter(b, a, d, n):
    from scipy.signal import lfilter
    x = np.zeros(400)
    x[0] = 1
    h = lfilter(b, np.convolve(a, d), x)
    return np.array([h[:400-k].dot(h[k:]) for k in range(n+1)])


# ------------------------------------------------------------------ min-max
def bandset(r, k):
    R = lambda a, b: round(r.uniform(a, b), 4)
    o = r.choice([8, 16, 32, 64, 12.5])
    if k == 'lp':
        return o, r.choice([0, 0.])
    if k == 'bp':
        o = r.choice([16, 32, 64])
        return o, R(.06, .44)
    if k == 'quarter':
        return o, .25
    if k == 'half':
        return o, .5
    f = [R(.05, .2), R(.3, .45)] if k == 'two' else [0, R(.2, .45)]
    return (r.choice([16, 32]) if r.random() < .5 else
            [r.choice([16, 32, 64]), r.choice([16, 32])]), f


def fband(o, f):
    return (0., .5/o) if f == 0 else (f-.5/o, f+.5/o)


def d02(scen, out):
    B = Batch(out, 'minmax', 6)
    r = rng('d02')
    for rep in range(1 if QUICK else 3):
        for s in scenarios(scen):
            n, zf = s['order'], s['zf']
            osr, f0 = bandset(r, s['bands'])
            H = round(hinf(r, s['hinf']), 3)
            ff = [f0] if np.isscalar(f0) else list(f0)
            oo = [osr]*len(ff) if np.isscalar(osr) else list(osr)
            bands = [fband(*x) for x in zip(oo, ff)]
            zz = ff if zf else []
            inf, d = [], []
            if zz:     # smallest gain that the zeros allow
                b = reference(n, [1.], np.inf, bands=[(0., .5)], zf=zz)
                if b is None:
                    b = multipliers(np.r_[1, np.zeros(n)], n, [1.], np.inf,
                                    None, [(0., .5)], zz)
                low = np.sqrt(b[0]) if b[0] > 0 else np.inf
                if b[0] > 0:
                    inf = [b[1]]
                if np.isfinite(H) and .9*low < H < 1.15*low:
                    H = round(1.3*low, 3)
                    low = 1.
                if b[0] > 1e3:     # no way to have the zeros
                    if not np.isfinite(H):
                        continue
                    low = np.inf
            else:
                low = 1.
            if H > low or not zz:
                b = reference(n, [1.], H, bands=bands, zf=zz)
                d = [b[1]] if b else []
            kws = runs(r, (not QUICK) or r.random() < .2, scs=False)
            args = [n, osr, H, f0, zf]
            kw = {}
            k = r.randrange(4)
            if k == 0 and not np.isscalar(f0):
                args[3] = np.array(f0)
            elif k == 1 and np.isscalar(f0):
                args[3] = [f0]
            elif k == 2 and not zf:
                args = args[:3]
                kw = {'f0': f0}
            sols, mut = [], False
            for md, o in kws:
                x, m, _ = solve(ntf_fir_minmax, args, dict(kw, **o), [1.], md)
                if 'h' in x:
                    for l, u in bands:
                        x['at'] = x['at']+vec(fin(peaks(
                            x['h'], [1.], 2*np.pi*l, 2*np.pi*u)/(2*np.pi),
                            bands))
                sols.append(x)
                mut = mut or m
            emit(B, {'op': 'minmax', 'n': n, 'osr': vec(oo), 'f0': vec(ff),
                     'zf': vec(zz), 'H': dec(H), 'd': d, 'inf': inf,
                     'poles': cvec(np.zeros(n)), 'rel': '2e-3',
                     'abs': '2e-6' if np.isfinite(H) else '1e-5'}, sols, mut)
    if PART:
        return B.close()
    for n, md in ((1, 'cvxpy_old'), (3, 'picos'), (4, 'cvxpy')):
        x, m, _ = solve(ntf_fir_minmax, [n, 16, r.uniform(.3, .95)],
                        {'modeler': md}, [1.], md)
        emit(B, {'op': 'minmax', 'n': n, 'osr': ['16'], 'f0': ['0'],
                 'zf': [], 'H': '0.95', 'd': [], 'inf': [], 'poles': [],
                 'rel': '0', 'abs': '0'}, [x], m)
    for osr, f0 in (([16, 32], 0), ([16, 32], [0.1]), ([16], [0, .2]),
                    ([16, 16, 32], [.1, .2]), ([], [.1])):
        kws = runs(r, True, scs=False)
        sols = [solve(ntf_fir_minmax, [4, osr, 1.5, f0], o, [1.], md)[0]
                for md, o in kws]
        emit(B, {'op': 'minmax', 'n': 4, 'osr': vec(osr), 'f0': vec(f0),
                 'zf': [], 'H': '1.5', 'd': [], 'inf': [], 'poles': [],
                 'rel': '0', 'abs': '0'}, sols, False)
    for md in ('cvx', 'CVXPY', None, ''):
        refused(B, ntf_fir_minmax, [3], {'modeler': md}, '')
    B.close()


# -------------------------------------------------------------------- audio
def d03(scen, out):
    B = Batch(out, 'audio', 4)
    r, g = rng('d03'), nprng('d03')
    for rep in range(1 if QUICK else 4):
        for s in scenarios(scen):
            n, H = s['order'], round(hinf(r, s['hinf']), 3)
            osr = r.choice([1, 1.25, 2, 4, 8, 16, 32, 64, 12.5])
            if osr == 1 and s['aw'] == 'steps':
                osr = 1.5
            kw, band, attn = {}, 22.05e3, 120
            if r.random() < .6:
                band = kw['audio_band'] = r.choice([
                    20e3, 8e3, 15000, 22.05e3, 30e3, 48000])
            if r.random() < .6:
                attn = kw['max_attn'] = r.choice([60, 80, 100, 120, 30])
            wts = s['aw']
            if wts == 'steps':
                cut = round(r.uniform(.2, .8)*band)
                l1, l2 = r.choice([(1., .1), (.05, 1.), (1., 0.)])
                aw = lambda f, c=cut, l1=l1, l2=l2: l1 if f < c else l2
                fl = 10**(-attn/10.)
                e = np.array([0, cut/band*.5/osr, .5/osr, .5])
                l = np.maximum([l1, l2, 0], fl)
                kw['quad_opts'] = {'points': list(e[1:-1])}
                w = {'kind': 'steps', 'e': vec(e), 'l': vec(l)}
                q = q0_steps(e, l, n)
            else:
                aw = getattr(audio_weightings, wts+'_weighting') \
                    if s['fn'] else wts
                if r.random() < .7:
                    kw['quad_opts'] = {'points': [.5/osr]}
                w = {'kind': 'audio', 'aw': wts, 'osr': dec(osr),
                     'band': dec(band), 'attn': dec(attn)}
                q = q0_audio(wts, osr, band, attn, n)
            args = [n, osr, aw]
            if wts == 'f' and s['fn'] and r.random() < .5:
                args = args[:2]
            kws = runs(r, (not QUICK) and r.random() < .3, scs=False)
            if QUICK:
                kws = kws[:1]
            weighted(B, n, w, ntf_fir_audio_weighting, args, kws, [], H, q,
                     kw)
    if PART:
        return B.close()
    wy = lambda v, d={'y': []}: {'y': vec(v)}
    for n in range(1, 12):
        B.do({'op': 'dunnz', 'n': n}, dunn_optzeros, [n], {}, wy)
    wc = lambda v, d={'y': []}: {'y': cvec(v)}
    for n in range(1, 9):
        for osr in (r.choice([1, 8, 32]), r.choice([64, 12.5]),
                    r.uniform(2, 99)):
            o = call(dunn_optzeros, n)
            B.do({'op': 'dunnc', 'n': n, 'osr': dec(osr), 'tab': vec(o.val)
                  if o.ok else []}, dunn_optzeros_cplx, [n, osr], {}, wc)

    def wrap(v, d={'z': [], 'p': [], 'k': 'nan'}):
        return {'z': cvec(v[0]), 'p': cvec(v[1]), 'k': dec(v[2])}
    for n in range(1, 9):
        for j in range(3 if QUICK else 12):
            osr = r.choice([8, 16, 32, 64, 128, 25., r.uniform(8, 99)])
            h = r.choice([1.5, 1.3, 2., 3., r.uniform(1.2, 4)])
            o = call(dunn_optzeros_cplx, n, osr)
            rec = {'op': 'schreier', 'order': n, 'osr': dec(osr), 'opt': 5,
                   'hinf': dec(h), 'f0': '0', 'useopt': True, 'warns': [],
                   'tab': [], 'refs': [],
                   'zin': cvec(o.val) if o.ok else []}
            B.do(rec, ntf_dunn, [n, osr, h], {}, wrap)
    for a, kw, n, osr, h in (
            ([], {}, 3, 64, 1.5), ([4], {}, 4, 64, 1.5),
            ([2, 32], {}, 2, 32, 1.5), ([], {'H_inf': 2.}, 3, 64, 2.)):
        o = call(dunn_optzeros_cplx, n, osr)
        B.do({'op': 'schreier', 'order': n, 'osr': dec(osr), 'opt': 5,
              'hinf': dec(h), 'f0': '0', 'useopt': True, 'warns': [],
              'tab': [], 'refs': [], 'zin': cvec(o.val) if o.ok else []},
             ntf_dunn, a, kw, wrap)
    refused(B, ntf_fir_audio_weighting, [3, 16], {'modeler': 'cvx'}, '')
    B.close()


def q0_audio(name, osr, band, attn, n):
    """First row of the weighting matrix, by a dense quadrature."""
    f = np.linspace(0, 1, 20001)
    w = np.maximum(getattr(audio_weightings, name+'_weighting')(
        np.maximum(f, 1e-9)*band), 10**(-attn/10.))
    c = np.ones(20001)
    c[1:-1:2], c[2:-1:2] = 4, 2
    c /= 3*20000
    t, fl = .5/osr, 10**(-attn/10.)
    q = [2*t*np.sum(c*w)+2*fl*(.5-t)]
    for m in range(1, n+1):
        q.append(2*t*np.sum(c*w*np.cos(2*np.pi*m*t*f)) -
                 fl*np.sin(2*np.pi*m*t)/(np.pi*m))
    return np.array(q)


if __name__ == '__main__':
    globals()[sys.argv[1]](*sys.argv[2:])
