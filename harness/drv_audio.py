"""Driver: audio weightings and equal loudness contours (B02)."""
import sys

import numpy as np

from drvlib import (PART, Batch, check_origin, cvec, dec, nprng, rng,
                    scenarios, vec, QUICK)

check_origin()
from pydsm import audio_weightings as aw
from pydsm import iso226 as iso

TAB = {'f': iso.tabled_f, 'alpha': iso.tabled_alpha_f, 'LU': iso.tabled_L_U,
       'Tf': iso.tabled_T_f}
LEV = {'Lp': iso.tabled_L_p, 'LN': iso.tabled_L_N, 'Af': iso.tabled_A_f,
       'Bf': iso.tabled_B_f}
NODES = np.array(
    [20, 25, 31.5, 40, 50, 63, 80, 100, 125, 160, 200, 250, 315, 400, 500,
     630, 800, 1000, 1250, 1600, 2000, 2500, 3150, 4000, 5000, 6300, 8000,
     10000, 12500])
FREQ = [0., 1e-3, .5, 5, 12, 20, 20.6, 50, 107.7, 150, 440, 737.9, 1000,
        2000, 3150, 6000, 10e3, 12.2e3, 16e3, 22.05e3, 1e5, 1e7]


def flag(kw, name, how):
    """Add an optional boolean; tell the value in force."""
    if how != 'default':
        kw[name] = how == 'yes'
    return how


def b02(wts, isos, out):
    B = Batch(out, 'audio', 12)
    r, g = rng('b02'), nprng('b02')
    wt = lambda v, d={'y': [], 'shy': []}: {
        'y': vec(v), 'shy': list(np.asarray(v).shape)}
    for rep in range(1 if QUICK else 6):
        for s in scenarios(wts):
            n, p = s['normal'], s['power']
            k = s['shape']
            if k == 'scalar':
                f = r.choice(FREQ+[10**r.uniform(0, 4.4)])
            elif k == 'int':
                f = r.choice([0, 1000, r.randrange(1, 30000)])
            elif k == 'numpy':
                f = np.float64(10**r.uniform(0, 4.4))
            elif k == 'vector':
                f = np.r_[g.choice(FREQ, 3), 10**g.uniform(0, 4.4, 3)]
                if r.random() < .3:
                    f = f.astype(r.choice([np.int16, np.int32, np.int64]))
            else:
                f = 10**g.uniform(0, 4.4, (2, 3))
            args, kw = [f], {}
            if n != 'default' and r.random() < .5:
                args.append(n == 'yes')
                if p != 'default' and r.random() < .5:
                    args.append(p == 'yes')
                else:
                    flag(kw, 'power', p)
            else:
                flag(kw, 'normal', n)
                flag(kw, 'power', p)
            B.do({'op': 'weight', 'aw': s['aw'], 'f': vec(f), 'sh': list(
                np.asarray(f).shape), 'normal': n != 'no',
                'power': p != 'no'}, getattr(aw, s['aw']+'_weighting'),
                args, kw, wt)
        if PART:
            continue
        for a in 'abcdf':
            z, p, k = getattr(aw, a+'_zpk')
            G = getattr(aw, a+'_weighting_gain')
            f = np.r_[FREQ[2:-2], 10**g.uniform(1, 4.4, 8)]
            f = f if QUICK else np.r_[f, 10**g.uniform(0, 5, 30)]
            B.do({'op': 'filter', 'aw': a, 'f': vec(f), 'z': cvec(z),
                  'p': cvec(p), 'k': dec(k), 'gain': dec(G)}, lambda: 0, [],
                 {}, lambda v, d={}: {})
    wv = lambda v, d={'y': []}: {'y': vec(v)}
    for rep in range(1 if QUICK else 8):
        for s in scenarios(isos):
            kw = {}
            hfe = flag(kw, 'hfe', s['hfe']) == 'yes'
            fn = s['fn']
            if fn in TAB:
                B.do({'op': 'table', 'name': fn, 'hfe': hfe}, TAB[fn], [],
                     kw, wv)
                B.do({'op': 'table', 'name': fn, 'hfe': hfe}, TAB[fn],
                     [hfe], {}, wv)
                continue
            lev = {'low': r.choice([0, 0., 3.5, 10, 1e-3]),
                   'mid': r.choice([20, 40, 55.5, np.float64(33)]),
                   'high': r.choice([70, 80., 85.25]), 'end': r.choice(
                       [90, 90.]), 'bad': r.choice([-1e-9, -5, 90.0001, 120]),
                   'default': 40}[s['lev']]
            if fn in LEV:
                if s['lev'] == 'end' and r.random() < .5:
                    lev = r.choice([-10, 110, 100.])
                f = LEV[fn]
                B.do({'op': fn, 'hfe': hfe, 'lev': dec(lev)}, f, [lev], kw,
                     wv)
                continue
            args = [] if s['lev'] == 'default' else [lev]
            if args and r.random() < .3:
                args, kw = [], dict(kw, L_N=lev)
            if fn == 'contour':
                B.do({'op': fn, 'hfe': hfe, 'ln': dec(lev)},
                     iso.iso226_spl_contour, args, kw,
                     lambda v, d={'f': [], 'y': []}: {'f': vec(v[0]),
                                                      'y': vec(v[1])})
                continue
            k = r.choice([1, 1, 2, 3, 3])
            if k != 3 or r.random() < .5:
                kw['k'] = k
            ff = NODES
            if hfe:
                ff = np.r_[ff, 20e3]
            at = np.r_[10**g.uniform(np.log10(20.1), np.log10(12400), 6)]
            if hfe:
                at = np.r_[at, 15e3, 19e3]
            B.do({'op': fn, 'hfe': hfe, 'ln': dec(lev), 'k': k,
                  'at': vec(at)}, iso.iso226_spl_itpl, args, kw,
                 lambda v, d={'nodes': [], 'y': []}: {
                     'nodes': vec(v(ff)), 'y': vec([v(x) for x in at])})
            if s['lev'] == 'bad':
                continue
            k = r.choice([1, 2, 3, 4, 5])
            kw = dict(kw, k=k)
            if k == 3 and r.random() < .7:
                del kw['k']
            n = len(ff)
            kn = np.r_[ff[0], ff[(k+1)//2:n-(k+1)//2] if k % 2 else
                       (ff[k//2:n-k//2-1]+ff[k//2+1:n-k//2])/2, ff[-1]]
            js = sorted(r.sample(range(1, len(kn)-1), 3)+[
                r.choice([1, len(kn)-2])])
            pt = .5-.49*np.cos(np.pi*(np.arange(k+2)+.5)/(k+2))
            pt = np.r_[np.delete(pt, k//2), pt[k//2]]

            def cuts(v):
                q = []
                for j in js:
                    a, b = [kn[i]+(kn[i+1]-kn[i])*pt for i in (j-1, j)]
                    q.append({'j': j, 'lx': vec(a), 'ly': vec(v(a)),
                              'rx': vec(b), 'ry': vec(v(b))})
                return q
            B.do({'op': 'spline', 'hfe': hfe, 'ln': dec(lev), 'k': k},
                 iso.iso226_spl_itpl, args, kw, lambda v, d={
                     'cuts': []}: {'cuts': cuts(v)})
    B.close()


if __name__ == '__main__':
    globals()[sys.argv[1]](*sys.argv[2:])
