"""Driver: calls made while others are in progress (H02).

Calls are interleaved as the specification says: in threads, of which one
only runs at any time, and that are switched at given lines of the package;
or from the functions that the interrupted call was given.  Every scenario,
and every call that the answers are compared with, runs in a child forked
from a process that has called nothing.
"""
import copy
import json
import os
import sys
import threading
import time
import types
import warnings

import drv_history as dh
from drv_history import F, flat, marks, poly
from drvlib import Trace, dec, same, PART, PARTS, QUICK

import numpy as np
import pydsm

HERE = os.path.dirname(os.path.abspath(pydsm.__file__)) + os.sep
SLICES = 24
UNIFORM = 2 if QUICK else 12


class Board:
    """Who may run."""

    def __init__(self, sched):
        self.cond = threading.Condition()
        self.sched = sched          # [(thread, position in lines or None)]
        self.i = 0
        self.done = set()
        self.free = False           # nobody waits any longer
        self.seen = time.time()
        self.switches = 0

    def current(self):
        while self.i < len(self.sched) and self.sched[self.i][0] in self.done:
            self.i += 1
        return self.sched[self.i] if self.i < len(self.sched) else None

    def wait(self, t):
        with self.cond:
            while not self.free:
                c = self.current()
                if c is None or c[0] == t:
                    break
                self.cond.wait(.5)
                if time.time()-self.seen > 20:
                    # the thread that may run is waiting for another
                    self.free = True
                    self.cond.notify_all()
            self.seen = time.time()

    def point(self, t, n):
        """Thread t is at its n-th line."""
        self.seen = time.time()
        c = self.sched[self.i] if self.i < len(self.sched) else None
        if self.free or c is None or c[0] != t or c[1] is None or n < c[1]:
            return
        with self.cond:
            self.i += 1
            self.switches += 1
            self.cond.notify_all()
        self.wait(t)

    def end(self, t):
        with self.cond:
            self.done.add(t)
            self.current()
            self.seen = time.time()
            self.cond.notify_all()


def tracer(point):
    """Numbers the lines of the package that are reached (for the first two
    times)."""
    seen, n = {}, [0]

    def local(frame, event, arg):
        if event == 'line':
            k = frame.f_code.co_filename, frame.f_lineno
            c = seen.get(k, 0)
            if c < 2:
                seen[k] = c+1
                n[0] += 1
                point(n[0])
            return local
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(HERE):
            return local
        return None
    return glob, n


def roots():
    """What calls could share: names in the modules of the package, attributes
    and defaults of functions, options of cvxopt."""
    fixed, seen = [], set()

    def add(x):
        if id(x) not in seen:
            seen.add(id(x))
            fixed.append(x)
    for k, m in sorted(sys.modules.items()):
        if (k+'.').startswith('pydsm.'):
            add(vars(m))
            for v in list(vars(m).values()):
                if isinstance(v, types.FunctionType):
                    add(v)
                elif isinstance(v, type) and v.__module__.startswith('pydsm'):
                    add(v)
                    for w in vars(v).values():
                        if isinstance(w, types.FunctionType):
                            add(w)
    import cvxopt.solvers
    add(cvxopt.solvers.options)
    return fixed


def content(x, depth=4):
    t = type(x)
    if t in (int, float, complex, str, bool, type(None), bytes):
        return x
    if t is np.ndarray:
        return x.tobytes() if x.dtype != object else id(x)
    if depth == 0:
        return id(x)
    if t is dict:
        return id(x), tuple((k if type(k) is str else id(k),
                             content(v, depth-1)) for k, v in x.items())
    if t in (list, tuple):
        return id(x), tuple(content(v, depth-1) for v in x)
    if t in (set, frozenset):
        return id(x), frozenset(map(id, x))
    if getattr(t, '__module__', '').startswith('pydsm') and \
            hasattr(x, '__dict__'):
        return id(x), content(dict(x.__dict__), depth-1)[1]
    return id(x)


SIMPLE = (int, float, complex, str, bool, type(None), bytes)


def mutable(x, depth=3):
    t = type(x)
    if t in (dict, list, set, np.ndarray, bytearray):
        return True
    if t is tuple:
        return depth > 0 and any(mutable(v, depth-1) for v in x)
    return getattr(t, '__module__', '').startswith('pydsm') and \
        hasattr(x, '__dict__') and not isinstance(x, type)


class Watch:
    """Tells whether what calls could share is as it was the last time."""

    def __init__(self):
        for k, m in list(sys.modules.items()):
            if (k+'.').startswith('pydsm.'):
                vars(m).setdefault('__warningregistry__', {})
        self.dicts, self.functions = [], []
        inside = {}
        for x in roots():
            if isinstance(x, (dict, type)):
                d = x if isinstance(x, dict) else vars(x)
                self.dicts.append([d, None, None])
                for n, v in d.items():
                    if n not in IGNORED and mutable(v):
                        inside[id(v)] = v
            elif x.__module__.startswith('pydsm'):
                self.functions.append(x)
                for v in (x.__defaults__ or ())+tuple(
                        (x.__kwdefaults__ or {}).values()):
                    if mutable(v):
                        inside[id(v)] = v
        # (which object a name stands for is in dicts)
        self.inside = list(inside.values())
        self.old = None
        self.differs()

    def differs(self):
        r = False
        for e in self.dicts:
            ids = tuple(map(id, e[0].values()))
            if ids != e[1] and e[1] and len(ids) == len(e[1]) and all(
                    a == b or type(x) is type(y) is int and y > x
                    for a, b, x, y in zip(ids, e[1], e[2],
                                          e[0].values())):
                # counters, used for the names of variables
                e[1], e[2] = ids, list(e[0].values())
            if ids != e[1]:
                # the objects are kept so that their ids are not used again
                e[1], e[2] = ids, list(e[0].values())
                r = True
        now = [repr(np.geterr())]
        now += map(content, self.inside)
        for f in self.functions:
            if f.__dict__:
                now.append(content(f.__dict__)[1])
            if f.__closure__:
                now.append(tuple(content(c.cell_contents, 3)
                                 for c in f.__closure__ if c != CELL))
        if now != self.old:
            self.old = now
            r = True
        return r


IGNORED = {'__warningregistry__', '__builtins__', '__doc__', '__all__',
           '__path__', '__annotations__', '__spec__', '__loader__'}
CELL = type((lambda x: lambda: x)(0).__closure__[0])()
SLOW = {'firold', 'hybrid', 'minmaxold', 'firaudio', 'modeling', 'fircvx',
        'firpicos', 'minmaxcvx', 'clans'}


def functions(args, kw):
    """The functions in the arguments, wrapped."""
    hook = [None]
    calls = [0]

    def wrap(f):
        def g(*a, **k):
            calls[0] += 1
            if hook[0]:
                hook[0](calls[0])
            return f(*a, **k)
        return g

    def go(x):
        if type(x) is tuple:
            return tuple(go(y) for y in x)
        if type(x) is list:
            return [go(y) for y in x]
        if callable(x):
            return wrap(x)
        return x
    return go(args), {k: go(v) for k, v in kw.items()}, hook, calls


def prepare(call):
    name, k = call
    f, args, kw = F[name][1][k-1]()
    args, kw = copy.deepcopy((args, kw))
    post = None
    if isinstance(f, list):
        f, post = f
    return [f, post, args, kw, copy.deepcopy((args, kw))]


def perform(call, p, inner=None, at=None):
    """The outcome of a call."""
    f, post, args, kw, keep = p
    extra = {'calls': 0}
    a, k = args, kw
    if at is not None:
        a, k, hook, calls = functions(args, kw)

        def cut(n):
            if n == at:
                extra['inner'] = perform(inner, prepare(inner))
        hook[0] = cut
    exc, y = '', []
    try:
        v = f(*a, **k)
        if post is poly:
            v = poly(v)
        elif post is not None:
            v = [v(x) for x in post]
        flat(v, y)
    except Exception as x:
        exc, y = type(x).__name__, []
    if at is not None:
        extra['calls'] = calls[0]
        hook[0] = None
    r = {'c': list(call), 'exc': exc, 'y': y, 'tol': dec(F[call[0]][0]),
         'mutated': not same(keep, (args, kw)), 'inner': {}}
    r.update(extra)
    return r


def child(job):
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1), os.dup2(null, 2)
            warnings.simplefilter('ignore')
            import signal
            signal.alarm(150)
            out = job()
            with os.fdopen(w, 'w') as h:
                h.write(json.dumps(out))
        except BaseException as x:
            try:
                os.write(w, repr(x).encode())
            except OSError:
                pass
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as h:
        s = h.read()
    os.waitpid(pid, 0)
    try:
        return json.loads(s)
    except ValueError:
        return None


def alone(call):
    """The outcome of a call alone."""
    def job():
        out = []
        t = threading.Thread(target=lambda: out.append(
            perform(call, prepare(call), call, -1)))
        t.start()
        t.join()
        return out[0]
    return child(job)


def lines(call):
    """Where a call can be switched: some lines far apart, and those after
    which what calls share is not as before."""
    def job():
        n, w = [0], []
        watch = Watch()

        def look(k):
            if watch.differs():
                w.append(k)

        def go():
            g, m = tracer(look)
            p = prepare(call)
            sys.settrace(g)
            perform(call, p)
            sys.settrace(None)
            n[0] = m[0]
        t = threading.Thread(target=go)
        t.start()
        t.join()
        u = min(n[0], UNIFORM)
        return {'writes': w, 'points': sorted(set(w) | set(
            1+(k*n[0])//u for k in range(u)))}
    return child(job)


def cut(p, pts):
    """Line for a position of the schedule."""
    return None if p >= SLICES or not pts else pts[(p*len(pts))//SLICES]


def interleaved(calls, sched, shared):
    def job():
        m0 = marks(True)
        ps = [prepare(c) for c in calls]
        if shared:
            # the callers give the same objects
            for p in ps[1:]:
                p[2], p[3] = ps[0][2], ps[0][3]
        b = Board(sched)
        out = [None]*len(calls)

        def go(t):
            b.wait(t)
            g, n = tracer(lambda k: b.point(t, k))
            sys.settrace(g)
            try:
                out[t] = perform(calls[t], ps[t])
            finally:
                sys.settrace(None)
                b.end(t)
        th = [threading.Thread(target=go, args=(t,))
              for t in range(len(calls))]
        for t in th:
            t.start()
        for t in th:
            t.join()
        m1 = marks(True)
        return {'ev': out, 'marks': sorted(a for a in m1 if m0[a] != m1[a]),
                'switches': b.switches, 'free': b.free}
    return child(job)


def nested(calls, at):
    def job():
        m0 = marks(True)
        o = perform(calls[0], prepare(calls[0]), calls[1], at)
        i = o.pop('inner')
        o['inner'] = {}
        m1 = marks(True)
        return {'ev': [o]+([i] if i else []), 'marks': sorted(
            a for a in m1 if m0[a] != m1[a]), 'switches': 1 if i else 0,
            'free': False}
    return child(job)


def mine(f):
    """The scenarios for this driver: those of some services."""
    load = {}
    with open(f) as h:
        L = [json.loads(x) for x in h if x.strip()]
    for s in L:
        k = tuple(s['c'][0])
        load[k] = load.get(k, 0)+sum(9 if c[0] in SLOW else 1 for c in s['c'])
    free = [0]*PARTS
    who = {}
    for k in sorted(load, key=lambda k: (-load[k], k)):
        w = free.index(min(free))
        who[k] = w
        free[w] += load[k]
    return [s for s in L if who[tuple(s['c'][0])] == PART]


def h02(*files):
    out = files[-1]
    warnings.simplefilter('ignore')
    T = Trace(out)
    base = {}

    def baseline(c):
        c = tuple(c)
        if c not in base:
            base[c] = alone(list(c))
        return base[c]
    spots = {}

    def points(c):
        c = tuple(c)
        if c not in spots:
            spots[c] = lines(list(c)) or {'writes': [], 'points': [1]}
        return spots[c]
    done = set()
    skipped = sw = free = 0
    for f in files[:-1]:
        for s in mine(f):
            calls = [list(c) for c in s['c']]
            b = [baseline(c) for c in calls]
            assert all(b), ('no baseline', calls)
            if s['kind'] == 'nested':
                if b[0]['calls'] == 0:
                    skipped += 1
                    continue
                sched = max(1, (s['s'][0][1]*b[0]['calls'])//SLICES)
            else:
                sched = [(t-1, cut(p, points(calls[t-1])['points']
                                    if p < SLICES else None))
                         for t, p in s['s']]
            # schedules that are the same one, or equivalent because calls
            # write nothing that others could see
            k = json.dumps([calls, s['kind'], sched])
            if k in done or (len(s['s']) > 3 and s['kind'] != 'nested' and
                             not all(points(x)['writes'] for x in calls)):
                skipped += 1
                continue
            done.add(k)
            if s['kind'] == 'nested':
                r = nested(calls, sched)
            else:
                r = interleaved(calls, sched, s['kind'] == 'shared')
            if r is None:
                ev = [dict(c=c, exc='died', y=[], tol='0', mutated=False)
                      for c in calls]
                r = {'ev': ev, 'marks': [], 'switches': 0, 'free': False}
            for e in r['ev']:
                e.pop('inner', None), e.pop('calls', None)
                e['by'] = baseline(e['c'])['y']
                e['bexc'] = baseline(e['c'])['exc']
            # picos and cvxpy are known to change the options of cvxopt
            sw += r['switches']
            free += r['free']
            if any(c[0] not in ('firold', 'minmaxold', 'hybrid', 'modeling',
                                'firaudio') or c == ['hybrid', 5]
                   for c in calls):
                r['marks'] = [m for m in r['marks'] if m != 'solvers']
            r['ev'].append({'c': ['end', 0], 'marks': r['marks']})
            T.add(c=calls, kind=s['kind'], s=s['s'], ev=r['ev'],
                  key='%s:%s' % (s['kind'][0], '+'.join(
                      '%s%d' % tuple(c) for c in calls)))
    T.close()
    print('scenarios', T.n, 'equivalent', skipped, 'switches', sw, 'free', free,
          'writers', sorted('%s%d:%d' % (k+(len(v['writes']),))
                            for k, v in spots.items() if v['writes']))


if __name__ == '__main__':
    globals()[sys.argv[1]](*sys.argv[2:])
