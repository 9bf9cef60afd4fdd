"""Helpers for the drivers, which run the real code and record traces."""
import copy
import json
import os
import random
import signal
import sys
import traceback
import warnings

import numpy as np

SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
QUICK = TIER != 'thorough'
# A driver can be one of several that share the scenarios
PART, PARTS = map(int, os.environ.get('VERIF_PART', '0/1').split('/'))


def check_origin():
    import pydsm
    want = os.environ['PYTHONPATH'].split(':')[0]
    assert os.path.realpath(pydsm.__file__).startswith(
        os.path.realpath(want)), pydsm.__file__


def dec(x):
    """Decimal literal of a real (shortest one that identifies a double)."""
    if isinstance(x, (bool, np.bool_)):
        return str(int(x))
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, str):
        return x
    try:
        x = float(x)
    except (TypeError, ValueError):
        return 'notanumber'
    if x != x:
        return 'nan'
    if x in (float('inf'), float('-inf')):
        return 'inf' if x > 0 else '-inf'
    return repr(x)


def vec(a):
    """Flat list of decimals."""
    return [dec(v) for v in np.asarray(a).reshape(-1)]


def mat(a):
    """List of rows of decimals."""
    a = np.atleast_2d(np.asarray(a))
    return [[dec(v) for v in r] for r in a]


def cpl(z):
    z = complex(z)
    return [dec(z.real), dec(z.imag)]


def cvec(a):
    return [cpl(z) for z in np.asarray(a).reshape(-1)]


def same(a, b):
    """Equality of arguments, types and array contents included."""
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and \
            a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, (tuple, list)):
        return type(a) == type(b) and len(a) == len(b) and \
            all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and \
            all(same(a[k], b[k]) for k in a)
    if callable(a):
        return True
    return a == b or (a != a and b != b)


class CallTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CallTimeout()


def frames(e):
    return ' '.join(f.filename for f in traceback.extract_tb(e.__traceback__))


class Outcome(object):
    """Result of a call to the code under test."""
    def __init__(self):
        self.exc = ''
        self.msg = ''
        self.val = None
        self.where = ''      # files that the exception went through
        self.warn = []       # names of warning categories, in order

    @property
    def ok(self):
        return self.exc == ''


def call(f, *args, **kw):
    """Run f, catching whatever happens, with a time limit."""
    limit = kw.pop('_limit', 60)
    o = Outcome()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                with np.errstate(all='ignore'):
                    o.val = f(*args, **kw)
            except CallTimeout as e:
                o.where = frames(e)
                o.exc, o.msg = 'Timeout', 'no answer in %ss' % limit
            except SystemExit as e:
                o.exc, o.msg = 'SystemExit', str(e)
            except Exception as e:
                o.where = frames(e)
                o.exc, o.msg = type(e).__name__, str(e)[:300]
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        o.warn = [x.category.__name__ for x in w]
        o.warnmsg = [str(x.message) for x in w]
        o.warnfile = [x.filename for x in w]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return o


class Trace(object):
    """Writer of ndjson traces: one scenario per line."""
    def __init__(self, path):
        self.f = open(path, 'w')
        self.n = 0

    def add(self, **kw):
        assert 'ev' in kw
        kw.setdefault('key', '')
        kw.setdefault('kind', 'x')
        self.f.write(json.dumps(kw) + '\n')
        self.n += 1

    def close(self):
        self.f.close()


def scenarios(path):
    with open(path) as h:
        for k, line in enumerate(h):
            if line.strip() and k % PARTS == PART:
                yield json.loads(line)


def rng(*salt):
    if PART:
        salt += ('part', PART)
    return random.Random('%d/%s' % (SEED, '/'.join(map(str, salt))))


def nprng(*salt):
    r = rng(*salt)
    return np.random.RandomState(r.randrange(2**31))


def small(r, g, sh, pos=False):
    """Integers of small types, up to the ends of their ranges."""
    t = np.iinfo(r.choice([np.int8, np.int16, np.int32, np.uint8, np.uint16]))
    x = g.randint(1 if pos else t.min, t.max, sh, dtype=np.int64)
    if g.rand() < .3:
        x = np.where(g.rand(*np.shape(x)) < .3, t.max, x)
    return np.asarray(x).astype(t.dtype)


def arr(a, f=vec):
    """Shape and flat content of an array."""
    a = np.asarray(a)
    return {'sh': list(a.shape), 'v': f(a)}


class Batch(object):
    """Groups events in traces of some tens."""
    def __init__(self, out, name, size=40):
        self.T, self.name, self.size, self.ev, self.k = (Trace(out), name,
                                                         size, [], 0)

    def do(self, rec, f, args, kw, wrap, limit=60):
        """Call f, record the outcome through wrap(value) -> fields.

        The default of the second argument of wrap holds the fields to be
        recorded when f fails.  Returns the outcome."""
        keep = copy.deepcopy((args, kw))
        o = call(f, *args, _limit=limit, **kw)
        e = dict(rec, exc=o.exc)
        if o.exc:
            e['msg'] = o.msg
        e['mutated'] = not same(keep, (args, kw))
        if o.ok:
            try:
                e.update(wrap(o.val))
            except Exception as x:
                e['exc'], e['msg'] = 'unusable result', repr(x)
        for k, v in wrap.__defaults__[0].items():
            e.setdefault(k, v)
        if 'warns' in rec:
            e['warns'] = o.warnmsg
        self.ev.append(e)
        if len(self.ev) >= self.size:
            self.flush()
        return o

    def flush(self):
        if self.ev:
            self.T.add(ev=self.ev, key='%s/%d' % (self.name, self.k))
            self.k += 1
        self.ev = []

    def close(self):
        self.flush()
        self.T.close()
        print('traces', self.T.n)
