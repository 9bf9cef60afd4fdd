"""Axis labels, plots of poles and zeros, runs of the test suites."""
import re
import sys
import importlib
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt    # noqa: E402
from matplotlib.colors import to_hex    # noqa: E402
from drvlib import Trace, call, cpl, dec, scenarios    # noqa: E402
import pydsm      # noqa: E402
from pydsm.delsig import axisLabels, plotPZ      # noqa: E402


def labels(s):
    p = [float(x) for x in s['pts']]
    a = {'list': p, 'array': np.array(p),
         'matrix': np.array(p).reshape(1, -1)}[s['as']]
    before = repr(a)
    incr = eval(s['bad']) if s['bad'] else (
        s['incr'][0] if len(s['incr']) == 1 else tuple(s['incr']))
    r = call(axisLabels, a, incr)
    return {'exc': r.exc, 'kept': before == repr(a),
            'strings': r.ok and all(isinstance(x, str) for x in r.val),
            'long': max([len(x) for x in r.val] or [0]) if r.ok else 0,
            'labels': [dec(float(x)) for x in r.val] if r.ok else []}


NUMBER = r'[-+]?\d+\.\d+'


def texts(ax):
    """The lists written on the plot, by the position they have."""
    out = {}
    for t in ax.texts:
        x = round(t.get_position()[0], 6)
        out.setdefault(x, []).append((-t.get_position()[1], t.get_text()))
    res = []
    for x in sorted(out):
        q = sorted(out[x])
        res.append({'title': q[0][1],
                    'items': [[dec(float(m)) for m in re.findall(NUMBER, w)]
                              for _, w in q[1:]],
                    'pm': [r'\pm' in w for _, w in q[1:]]})
    return res


def plots(s):
    cx = [[complex(float(a), float(b)) for a, b in s[k]] for k in 'zp']
    if s['form'] == 'nd':
        H = (np.real(np.poly(cx[0])) if cx[0] else np.array([1.]),
             np.real(np.poly(cx[1])))
        H = (2.*np.r_[np.zeros(max(0, len(H[1])-len(H[0]))), H[0]], H[1]) \
            if len(H[0]) <= len(H[1]) else H
    elif s['form'] == 'arrays':
        H = (np.array(cx[0]), np.array(cx[1]), 1.)
    else:
        H = (cx[0], cx[1], 2.)
    kw = {k: eval(v) for k, v in s['opts']}
    if s['list']:
        kw['showlist'] = True
    plt.close('all')
    fig = plt.figure()
    ax = fig.add_subplot(111)
    r = call(plotPZ, H, **kw)
    out = {'exc': r.exc, 'p': [], 'z': [], 'circle': False, 'axes': 0,
           'pc': [], 'zc': [], 'size': [], 'joined': False,
           'other': len(fig.axes) != 1 or len(plt.get_fignums()) != 1,
           'texts': texts(ax)}
    lines = []
    for l in ax.lines:
        x, y = np.asarray(l.get_xdata()), np.asarray(l.get_ydata())
        m = l.get_marker()
        if m in ('x', 'o'):
            k = 'p' if m == 'x' else 'z'
            out[k] += [cpl(complex(a, b)) for a, b in zip(x, y)]
            out[k+'c'].append(to_hex(l.get_color()))
            out['size'].append(dec(float(l.get_markersize())))
            out['joined'] |= l.get_linestyle() not in ('None', '')
        elif len(x) > 2:
            t = np.unwrap(np.angle(x+1j*y))
            out['circle'] |= bool(np.allclose(np.hypot(x, y), 1) and
                                  abs(abs(t[-1]-t[0])-2*np.pi) < 1e-6)
        elif len(x) == 2 and (np.all(x == 0) or np.all(y == 0)):
            out['axes'] += 1
            h = bool(np.all(y == 0))
            if l.get_transform() != ax.transData:
                q = ax.transData.inverted().transform(
                    l.get_transform().transform(np.c_[x, y]))
                x, y = q[:, 0], q[:, 1]
            lines.append((h, sorted(float(v) for v in (x if h else y))))
    out['spans'] = {('h' if h else 'v'): [dec(a) for a in q]
                    for h, q in lines}
    out['pc'] = sorted(set(out['pc']))
    out['zc'] = sorted(set(out['zc']))
    out['size'] = sorted(set(out['size']))
    plt.close('all')
    return out


def runs(s):
    import pytest
    from _pytest.config import _prepareconfig
    seen = []

    def main(args=None, plugins=None):
        seen.append(list(args))
        if s['code'].startswith('exit'):
            raise SystemExit(int(s['code'][4:]))
        return int(s['code'])
    mod = importlib.import_module(s['mod'])
    f = getattr(mod, s['kind'], None)
    out = {'has': f is not None, 'exc': '', 'ret': '', 'calls': 0, 'glob': [],
           'doc': False, 'verbose': 0, 'mark': '', 'dur': '', 'pyargs': False,
           'key': '', 'maxfail': 0, 'what': []}
    if f is None:
        return out
    kw = {}
    if s['label']:
        kw['label'] = s['label']
    if s['verbose'] != 1:
        kw['verbose'] = s['verbose']
    if s['extra']:
        kw['extra_argv'] = s['extra']
    if s['doc']:
        kw['doctests'] = True
    if s['dur'] != -1:
        kw['durations'] = s['dur']
    if s['tests']:
        kw['tests'] = s['tests'][1] if s['tests'][0] == 'str' else s['tests']
    old = pytest.main
    pytest.main = main
    try:
        r = call(f, **kw)
    finally:
        pytest.main = old
    out.update(exc=r.exc, calls=len(seen), ret=repr(r.val))
    if len(seen) == 1:
        c = _prepareconfig(['-p', 'no:cacheprovider']+seen[0])
        o = c.option
        out.update(glob=sorted(o.ignore_glob or []), doc=o.doctestmodules,
                   verbose=o.verbose, mark=o.markexpr,
                   dur='' if o.durations is None else str(o.durations),
                   pyargs=bool(o.pyargs), key=o.keyword, maxfail=o.maxfail,
                   what=list(o.file_or_dir))
        c._ensure_unconfigure()
    return out


def plot(*files):
    T = Trace(files[-1])
    for f in files[:-1]:
        for k, sc in enumerate(scenarios(f)):
            T.add(part=sc['part'], s=sc['s'], key=str(k),
                  ev=[globals()[sc['part']](sc['s'])])
    T.close()
    print('traces', T.n)


if __name__ == '__main__':
    globals()[sys.argv[1]](*sys.argv[2:])
