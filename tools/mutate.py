"""mutate.py PID [n] [tier]: how sensitive is the trace specification?

Runs the check of a property; of each trace it validates, takes copies where
one recorded item of one event has been altered, and has TLC validate these
too.  Prints, for each kind of item, how many alterations the specification
rejects.  Development tool, not used by the checks."""
import json
import random
import re
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/harness')
import core      # noqa: E402
import checks    # noqa: E402

pid = sys.argv[1]
N = int(sys.argv[2]) if len(sys.argv) > 2 else 5
tier = sys.argv[3] if len(sys.argv) > 3 else 'quick'
rnd = random.Random(7)
NUM = re.compile(r'^-?\d+(\.\d*)?(e[-+]?\d+)?$')


def leaves(x, path=(), gen=()):
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path+(k,), gen+(k,))
    elif isinstance(x, list):
        if path:
            yield path, gen+('#',)
        for i, v in enumerate(x):
            yield from leaves(v, path+(i,), gen+('*',))
    else:
        yield path, gen


def alter(v, last):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v+rnd.choice((1, -1))
    if isinstance(v, float):
        return v*1.01+1e-3
    if isinstance(v, str):
        if NUM.match(v):
            y = float(v)
            return repr(y*1.01+(1e-3 if rnd.random() < .5 else -1e-3)
                        if abs(y) < 1e300 else y/2)
        if v == '':
            return 'KeyError' if 'exc' in str(last) else 'altered'
        return '' if rnd.random() < .5 else 'altered'
    if isinstance(v, list):
        if not v:
            return None
        if rnd.random() < .5:
            return v[:-1]
        return v+[v[-1]]
    return None


def put(s, path, v):
    for k in path[:-1]:
        s = s[k]
    s[path[-1]] = v


orig = core.Ctx.validate
inside = []
report = {}


def validate(self, module, trace, consts='', env=None, what='', **kw):
    r = orig(self, module, trace, consts, env, what, **kw)
    with open(trace) as h:
        scen = [json.loads(l) for l in h if l.strip()]
    cand = {}
    order = list(range(len(scen)))
    rnd.shuffle(order)
    for t in order[:600]:
        for i, ev in enumerate(scen[t]['ev']):
            op = ev.get('op', scen[t].get('part', scen[t].get('kind', '-')))
            for p, g in leaves(ev):
                if p and p[0] != 'op':
                    k = (module, str(op), '.'.join(map(str, g)))
                    c = cand.setdefault(k, [])
                    if len(c) < N:
                        c.append((t, i, p))
                    elif rnd.random() < .02:
                        c[rnd.randrange(N)] = (t, i, p)
    muts = []
    for k, c in cand.items():
        for t, i, p in c:
            s = json.loads(json.dumps(scen[t]))
            v = s['ev'][i]
            for q in p:
                v = v[q]
            w = alter(v, p[-1])
            if w is None or w == v:
                continue
            put(s['ev'][i], p, w)
            muts.append((k, s, (i, p, v, w)))
    todo = list(range(len(muts)))
    killed = {}
    for rounds in range(400):
        f = self.tmp('mut.json')
        with open(f, 'w') as h:
            for m in todo:
                h.write(json.dumps(muts[m][1])+'\n')
        e = {'TRACE_FILE': f}
        e.update(env or {})
        kw2 = dict(kw)
        r2 = self.tlc(module, 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n'
                      + consts, e, **kw2)
        for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*"([^"]*)"',
                             r2['out']):
            killed.setdefault(todo[int(m.group(1))-1], m.group(3))
        if r2['ok']:
            break
        m = re.findall(r'tid = (\d+)', r2['out'])
        if not m:
            print('ABORT', r2['error'][:300])
            break
        t = todo[int(m[-1])-1]
        killed.setdefault(t, 'crash')
        todo = [x for x in todo if x not in killed]
        if not todo:
            break
    for m, (k, s, d) in enumerate(muts):
        a = report.setdefault(k, [0, 0, {}, None])
        a[1] += 1
        if m in killed:
            a[0] += 1
            a[2][killed[m]] = a[2].get(killed[m], 0)+1
        else:
            a[3] = d
    return r


core.Ctx.validate = validate
c = core.Ctx(pid, tier, 1)
try:
    c.build()
    getattr(checks, pid)(c)
finally:
    c.close()
for k, (a, b, cl, d) in sorted(report.items()):
    print('%-60s %3d/%-3d %s' % (' '.join(k), a, b,
          ' '.join(cl) if a == b else '   SURVIVED '+str(d)[:150]))
