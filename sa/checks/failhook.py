"""Failure discipline: a failed step is remembered on the path until the function reports failure itself."""
from engine import INF, NZ, root
from ir import *

class FailHook:
    """kinds: 'mem' = allocation refused, 'step' = a library call reported failure, 'io' = a platform I/O call failed"""
    def __init__(s, kinds, stepfail=None):
        s.kinds = kinds; s.cand = {}; s.sites = {}; s.cv = {}; s.bad = {}; s.cnt = {}; s.eats = None
    def reset(s): s.cand = {}; s.sites = {}; s.cv = {}; s.bad = {}; s.cnt = {}
    def again(s, f): s.cand.pop(f.key, None)
    def export(s): return (s.cand, s.sites, s.bad, s.cnt)
    def merge(s, x):
        s.cand.update(x[0]); s.bad.update(x[2])
        for k, v in x[3].items(): s.cnt[k] = s.cnt.get(k, 0) + v
        for k, v in x[1].items(): s.sites.setdefault(k, set()).update(v)
    def site(s, f, kind, ins, name): s.sites.setdefault(kind, set()).add((f.key, ins.uid, name))

    def on_fail(s, e, f, st, ins, name):
        k = 'mem' if name in MEM else 'io' if name in IO else None
        if k is None or k not in s.kinds: return
        s.site(f, k, ins, name)
        st.mark = st.mark | {('fail', k, name, ins.line, None)}

    def on_call(s, e, f, ins, st, name, args):
        if 'io' not in s.kinds: return None
        # the same operation is attempted again
        st.mark = frozenset(m for m in st.mark if not (m[0] == 'fail' and m[1] == 'io' and m[2] == name and m[3] == ins.line))
        if name in ('unlink', 'remove'): s.removal(e, f, ins, st, args[0])
        elif name == 'u_remove': s.removal(e, f, ins, st, args[0])
        return None

    def removal(s, e, f, ins, st, a):
        """a caller's file may only go away once every operation on it has succeeded"""
        tries = [m for m in st.mark if m[0] == 'try' and m[1] == a]
        if not tries or ('lossy',) in st.mark: return
        s.cnt['removals after a copy'] = s.cnt.get('removals after a copy', 0) + 1
        if not any(e.fact(st, m[2])[0] == e.fact(st, m[2])[1] == 0 for m in tries):
            from engine import lines
            s.bad[(f.key, ins.line)] = (f.file, ins.line, f.name, lines(st.trace))

    def on_branch(s, e, f, term, st, c):
        # an explicit size test before a bounded copy
        if 'step' in s.kinds and c[0] == 'cmp' and c[1] not in ('eq', 'ne') and c[2][0] != 'c' and c[3][0] != 'c' and s.copies(e, f):
            for x in (c[2], c[3]):
                if x[0] == 'a': st.mark = st.mark | {('ord', x)}

    def copies(s, e, f):
        return any(e.prog.calleename(i) in ('u_strlcpy', 'u_strlcat') for i in f.calls())

    def after_call(s, e, f, ins, st, name, args, targets):
        if 'io' in s.kinds and ins.res is not None and len(args) >= 2 and args[0][0] == 'a' and name in ('link', 'rename', 'u_copy', 'symlink'):
            st.mark = st.mark | {('try', args[0], st.env.get(ins.res, ('undef',)))}

    def on_outcome(s, e, f, ins, st, g, args, o):
        if 'mem' in s.kinds and ins.res is not None and g.ret.k == 'ptr' and o.ret == ('c', 0) and s.allocator(e, g) and not any(x[0] == 0 == x[1] and t[0] == 'a' for t, x in o.argfacts):
            s.site(f, 'mem', ins, g.name); st.mark = st.mark | {('fail', 'mem', g.name, ins.line, None)}
            st.trace = ('%s fails at line %d' % (g.name, ins.line), st.trace)
        if 'step' not in s.kinds and not ('mem' in s.kinds and s.hungry(e, g)): return
        if g.name in ACK:
            # the caller asks for the condition that makes the step fail
            st.mark = frozenset(m for m in st.mark if not (m[0] == 'fail' and m[2] == ACK[g.name]))
        if ins.res is None: return
        if g.ret.k == 'int':
            if o.ret[0] != 'c' or o.ret[1] == 0: return
            cv = s.cv.get(g.key)
            if cv is None: cv = s.cv[g.key] = convention(g, e.summ[g.key]) or 'none'
            if cv in ('none', 'bool', 'cmp'): return
            if cv == 'neg' and o.ret[1] == 1: return
        elif g.ret.k == 'ptr':
            if not (o.ret == ('c', 0) and s.allocator(e, g)): return
        else: return
        if any(x[0] == 0 == x[1] and t[0] == 'a' and args[t[1]][0] == 'a' for t, x in o.argfacts if t[0] == 'a' and t[1] < len(args)):
            return      # the callee only rejects a NULL argument that the caller never expects to be NULL
        if g.name in ('u_snprintf',):
            from checks.util import fmtmax
            n = fmtmax(e, f, st, args[2], args[3:])
            if n is not None and n < e.fact(st, args[1])[0]: return     # always fits
        if g.name in ('u_strlcpy', 'u_strlcat') and ('ord', args[2]) in st.mark: return
        s.site(f, 'step', ins, g.name)
        st.mark = st.mark | {('fail', 'step', g.name, ins.line, o.ret)}

    def hungry(s, e, g):
        """the function (or one it calls) asks for memory"""
        if s.eats is None:
            s.eats = set(); grew = True
            while grew:
                grew = False
                for f in e.prog.allfns:
                    if f.key not in s.eats and any(e.prog.calleename(i) in MEM or any(t.key in s.eats for t in e.targets(i)) for i in f.calls()): s.eats.add(f.key); grew = True
        return g.key in s.eats

    def allocator(s, e, g):
        """every non-NULL result is a new object"""
        os = e.summ[g.key].outcomes
        return any(o.ret[0] == 'new' for o in os) and all(o.ret[0] == 'new' or o.ret == ('c', 0) for o in os)

    def on_exit(s, e, f, ins, st, rv, reach):
        ms = [m for m in st.mark if m[0] == 'fail']
        if not ms: return
        if rv is None: cls = 'void'
        elif f.ret.k == 'ptr':
            x = e.isnull(st, root(rv)) if rv[0] != 'c' else rv[1] == 0
            cls = '?' if root(rv)[0] == 'g' else 'fail' if x is True else 'ok' if x is False else '?'
        else:
            x = e.fact(st, rv) if rv[0] != 'cmp' else (0, 1, frozenset())
            if x[0] == x[1] == 0: cls = 'zero'
            elif x[0] == x[1] and x[0] > 1: cls = 'code'
            elif x[0] >= 0: cls = 'pos'
            elif x[1] < 0: cls = 'fail'
            else: cls = '?'
        lossy = ('lossy',) in st.mark
        from engine import lines
        for m in ms:
            if rv is not None and rv == m[4] and rv[0] == 'c' and f.ret.k == 'int': continue     # the callee's own code is passed on
            s.cand.setdefault(f.key, {}).setdefault((m[1], m[2], m[3], cls), None if lossy else lines(st.trace))
            if not lossy and s.cand[f.key][(m[1], m[2], m[3], cls)] is None: s.cand[f.key][(m[1], m[2], m[3], cls)] = lines(st.trace)

ACK = {'u_lexer_eot': 'u_lexer_next'}
MEM = {'u_malloc', 'u_zalloc', 'u_calloc', 'u_realloc', 'malloc', 'calloc', 'realloc', 'strdup', 'strndup'}
from checks.iomodel import NAMES as IO

def convention(f, sm):
    """how f tells failure: 'neg' (negative constant), 'code' (non-zero constant), 'ptr', 'bool' (0/1), 'cmp' (any number), None"""
    if f.ret.k == 'ptr': return 'ptr'
    if f.ret.k != 'int': return None
    ints = set(o.ret[1] for o in sm.outcomes if o.ret[0] == 'c')
    syms = [o.retfact for o in sm.outcomes if o.ret[0] != 'c']
    if any(x[0] < 0 < x[1] for x in syms): return 'cmp' if 0 not in ints else 'neg'
    if any(c < 0 for c in ints) or any(x[1] < 0 for x in syms): return 'neg'
    if ints and ints <= {0, 1}: return 'bool'
    if any(c > 1 for c in ints): return 'code'
    return None

def verdicts(e, hook, skip=('test.c',)):
    for f in e.prog.allfns:
        if f.file.split('/')[-1] in skip: continue
        c = hook.cand.get(f.key)
        if not c: continue
        cv = convention(f, e.summ[f.key])
        for (kind, name, line, cls), path in sorted(c.items(), key=lambda x: (x[0][2], x[0])):
            if path is None: path = ['(paths joined)']
            bad = (cv in ('neg', 'code') and cls == 'zero') or (cv == 'neg' and cls == 'pos') or (cv == 'ptr' and cls == 'ok')
            if bad: yield f, kind, name, line, path
