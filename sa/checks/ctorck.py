"""C07: what a constructor leaves in its result pointer."""
from engine import root, lines
from checks.failhook import convention
from checks import paths
from checks.framework import Result
from checks.util import ptype

class Ctor:
    def __init__(s): s.seen = {}
    def reset(s): s.seen = {}
    def again(s, f): s.seen.pop(f.key, None)
    def export(s): return s.seen
    def merge(s, x): s.seen.update(x)
    def on_exit(s, e, f, ins, st, rv, reach):
        ks = [k for k, (t, nm, bv) in enumerate(f.params) if t.k == 'ptr' and not bv]
        if not ks: return
        if rv is None: rc = 'void'
        elif f.ret.k == 'ptr':
            # an object handed out through the result itself
            q = st.res.get(root(rv))
            if q is not None and q.st == 'F' and ('lossy',) not in st.mark: s.put(f, 'ret', 'freed', 'any', lines(st.trace))
            x = e.isnull(st, rv) if rv[0] != 'c' else rv[1] == 0
            rc = 'fail' if x is True else 'ok' if x is False else '?'
        elif f.ret.k == 'int':
            x = e.fact(st, rv) if rv[0] != 'cmp' else (0, 1, frozenset())
            rc = 'zero' if x[0] == x[1] == 0 else 'neg' if x[1] < 0 else 'pos' if x[0] > 0 else '?'
        else: return
        path = None if ('lossy',) in st.mark else lines(st.trace)
        for k in ks:
            a = ('a', k)
            if e.isnull(st, a) is True: s.put(f, k, 'absent', rc, path); continue
            m = st.mem.get((a, 0))
            if m is None or (a, 0) not in st.dirty or m[0] == ('m', a, 0): cls = 'untouched' if not any(x == a for x, o in st.dirty) else 'lost'
            else:
                v = m[0]; q = st.res.get(root(v))
                if v[0] == 'c' and v[1] == 0: cls = 'null'
                elif q is not None and q.st == 'F': cls = 'freed'
                elif q is not None and q.st == 'L' and v == root(v): cls = 'live'
                elif v[0] == 'c' or len(m) > 3 and m[3] not in ('ptr', None): continue
                else: cls = 'null' if e.isnull(st, v) is True else 'object' if e.isnull(st, v) is False else 'other'
            s.put(f, k, cls, rc, path)
    def put(s, f, k, cls, rc, path):
        d = s.seen.setdefault(f.key, {})
        if d.get((k, cls, rc)) is None: d[(k, cls, rc)] = path

def c07(pid, tier):
    r = Result('Result-pointer typestate: for every function that stores a newly acquired object through a pointer argument, each exit is classified by its return value; a success exit must have stored an object that is live (or known not to be NULL) and no exit may leave there an object the function has released, nor may a function return an object it has released.')
    h = Ctor(); p, e = paths.run_engine([h]); paths.cover(r, p, e)
    n = 0
    for f in p.allfns:
        d = h.seen.get(f.key)
        if not d: continue
        cv = convention(f, e.summ[f.key])
        for k in sorted(set(x[0] for x in d), key=str):
            live = any(x[0] == k and x[1] == 'live' for x in d)
            if live and k != 'ret':
                ty = ptype(f, k); live = ty[:2] == ['ptr', 'ptr'] or ty[0] == '?'
                if ty[2:] == ['void'] and f.internal: live = False      # a cell of any kind, not a constructor's result
            elif k != 'ret' and not f.internal and ptype(f, k)[:2] == ['ptr', 'ptr'] and ptype(f, k)[2] not in ('char', 'void', 'ptr', '?'): live = True      # an object handed out that is not new
            nm = 'the result' if k == 'ret' else e.pname(f, k)
            for (k2, cls, rc), path in sorted(d.items(), key=repr):
                if k2 != k: continue
                if path is None:
                    # joined paths: only the plain case counts
                    if not (cls == 'freed' and f.ret.k == 'int' and rc == 'neg'): continue
                    path = ['(paths joined)']
                if cls == 'freed': r.add(f.file, f.line, f.name, 'dangling', '%s is left pointing to an object that this path has released' % nm, path)
                elif not live or k == 'ret': continue
                elif f.ret.k == 'int' and cv in ('neg', 'code') and rc == 'zero' and cls in ('null', 'untouched'): r.add(f.file, f.line, f.name, 'nothing', 'success is reported but %s %s' % (nm, {'null': 'is NULL', 'untouched': 'is never set'}[cls]), path)
                elif f.ret.k == 'int' and cv in ('neg', 'code') and rc == 'neg' and cls == 'live': r.add(f.file, f.line, f.name, 'delivered', 'failure is reported but %s holds a live object' % nm, path)
            if live: n += 1; r.sample('%s(%s)' % (f.name, nm))
    r.cov['result_pointers'] = n; r.need('result_pointers', 20)
    return r
