"""C22: password authentication fails closed."""
import os
from ir import compile_all, AnalysisError
import engine, models
from engine import INF, NZ, root, lines, addoff
from checks.framework import Result
from checks.util import cstr, members

def eq0(e, st, v):
    x = e.fact(st, v); return x[0] == x[1] == 0

class Pwd:
    """marks: ('ts',kind,...)
       cp/dup: text copied; len: length taken; hash: hash function applied; cmp: comparison; line: input line; match: line compared with the name"""
    def __init__(s, off): s.off = off; s.init()
    def init(s): s.bad = {}; s.cnt = {}
    def reset(s): s.init()
    def again(s, f): s.bad = {k: v for k, v in s.bad.items() if k[0] != f.key}
    def export(s): return (s.bad, s.cnt)
    def merge(s, x):
        s.bad.update(x[0])
        for k, v in x[1].items(): s.cnt[k] = s.cnt.get(k, 0) + v
    def n(s, k): s.cnt[k] = s.cnt.get(k, 0) + 1
    def err(s, f, line, st, msg): s.bad.setdefault((f.key, line, msg), (f, line, msg, lines(st.trace)))
    def put(s, st, *m): st.mark = st.mark | {('ts',) + m}
    def drop(s, st, p): st.mark = frozenset(m for m in st.mark if not (m[0] == 'ts' and p(m)))
    def marks(s, st, k): return [m for m in st.mark if m[0] == 'ts' and m[1] == k]

    # where a text comes from
    def src(s, e, st, v, seen=()):
        """set of original values a text is a complete copy of"""
        out = {v}
        if v in seen: return out
        for m in s.marks(st, 'cp'):
            if m[2] == v and (m[4] is None or eq0(e, st, m[4])): out |= s.src(e, st, m[3], seen + (v,))
        for m in s.marks(st, 'dup'):
            if m[2] == v: out |= s.src(e, st, m[3], seen + (v,))
        return out

    def on_loaded(s, e, f, ins, st, p, v):
        b, o = (p[1], p[2]) if p[0] == 'p' else (p, 0)
        for m in s.marks(st, 'toks'):
            T = st.mem.get((m[2], 0))
            if T is not None and T[0] == b: s.drop(st, lambda x: x[1] == 'tok' and x[2] == v); s.put(st, 'tok', v, o // 8, m[3])
        for m in s.marks(st, 'retr'):
            R = st.mem.get((m[3], 0))
            if R is not None and R[0] == b and o == s.off['pass']: s.put(st, 'pass', v)
        t = e.tag_of(f, ins.a[0], ins.ty)
        if o == s.off['user'] and (t[0] == 'F' and t[1] == 'struct.u_pwd_rec_s' or any(m[2] == b for m in s.marks(st, 'fld'))):
            s.drop(st, lambda m: m[1] == 'uof' and m[2] == v); s.put(st, 'uof', v, b)
    def on_store(s, e, f, ins, st, p, v, tag):
        if p == ('a', 2) and f.name == 'u_pwd_retr': s.drop(st, lambda m: m[1] == 'out'); s.put(st, 'out', v); return
        b, o = (p[1], p[2]) if p[0] == 'p' else (p, 0)
        if f.name == 'u_pwd_retr' and (tag[0] == 'F' and tag[1] == 'struct.u_pwd_rec_s' or tag[0] == 'raw' and tag[1] == 'ptr' and b[0] == 's' and b[2] == 'new' and o < 24):
            s.drop(st, lambda m: m[1] == 'fld' and m[2:4] == (b, o)); s.put(st, 'fld', b, o, v)
    def token(s, st, v):
        """index of the u_strtok() token v is"""
        for m in s.marks(st, 'tok'):
            if m[2] == v: return m[3], m[4]
        return None
    def on_taken(s, e, f, term, st, c, b):
        for m in s.marks(st, 'match'):
            if m[2] == 'strstr': ok = e.truth(st, ('cmp', 'eq', m[5], m[3])) is True or (b and c in (('cmp', 'eq', m[5], m[3]), ('cmp', 'eq', m[3], m[5]))) or (not b and c in (('cmp', 'ne', m[5], m[3]), ('cmp', 'ne', m[3], m[5])))
            else: ok = eq0(e, st, m[5])
            if ok: s.put(st, 'equal', *m[2:])
        for m in s.marks(st, 'cmp'):
            if eq0(e, st, m[2]): s.put(st, 'cmpok', None, m[3])
        for m in s.marks(st, 'got'):
            if e.isnull(st, m[3]) is False: s.put(st, 'gotok', m[3])

    def on_call(s, e, f, ins, st, name, args):
        if name is None and len(args) == 3 and ('a', 2) in [args[0]] and f.name == 'u_pwd_auth_user':
            s.n('hash_calls')
            s.drop(st, lambda m: m[1] in ('cp', 'hash') and m[2] == args[2])
            if any(m[2] == ('a', 2) and m[3] == args[1] for m in s.marks(st, 'len')): s.put(st, 'hash', args[2])
            return None
        if name is None and args and len(args) == 3 and root(args[0])[0] == 'al':
            # a line is read into the buffer
            b = args[0]
            s.drop(st, lambda m: (m[1] in ('match', 'equal', 'toks') and b in m[2:5]) or (m[1] == 'tok' and m[4] == b))
            s.put(st, 'line', b)
        if name == 'u_strtok':
            s.drop(st, lambda m: m[1] in ('toks', 'tok') and m[2] == args[2] or m[1] == 'tok')
            s.put(st, 'toks', args[2], args[0])
        return None

    def after_call(s, e, f, ins, st, name, args, targets):
        r = st.env.get(ins.res) if ins.res is not None else None
        if name == 'strlen' and r is not None: s.put(st, 'len', args[0], r)
        elif name in ('u_strlcpy', 'strlcpy', 'strcpy'):
            s.drop(st, lambda m: m[1] in ('cp', 'hash') and m[2] == args[0])
            s.put(st, 'cp', args[0], args[1], r if name == 'u_strlcpy' else None)
        elif name in ('u_strdup', 'strdup') and r is not None:
            s.put(st, 'dup', r, args[0])
        elif name in ('u_snprintf',):
            fm = cstr(f, args[2])
            if fm is not None and len(args) == 4:
                s.drop(st, lambda m: m[1] in ('cp', 'fmt') and m[2] == args[0])
                if fm == b'%s': s.put(st, 'cp', args[0], args[3], r)
                elif fm == b'%s:': s.put(st, 'fmt', args[0], args[3], r)
        elif name == 'u_pwd_retr' and f.name == 'u_pwd_auth_user':
            s.n('retrievals'); s.put(st, 'retr', args[1], args[2], r)
        elif name == 'u_hmap_easy_get' and r is not None: s.put(st, 'got', args[1], r)
        elif name == 'u_hmap_easy_put':
            s.n('snapshot_insertions')
            if not any(m[2] == args[1] and m[3] == args[2] for m in s.marks(st, 'uof')):
                s.err(f, ins.line, st, 'a record is stored in the snapshot under something other than its own user name')
        elif name in ('strcmp', 'strncmp', 'memcmp', 'strcasecmp', 'strncasecmp', 'strstr', 'u_strcmp') and r is not None:
            if f.name == 'u_pwd_auth_user': s.compare(e, f, ins, st, name, args, r)
            else: s.put(st, 'match', name, args[0], args[1], r, args[2] if len(args) > 2 else None)

    def compare(s, e, f, ins, st, name, args, r):
        pw = {0: None, 1: None}
        rec = any(eq0(e, st, m[4]) and m[2] == ('a', 1) for m in s.marks(st, 'retr'))
        def isrec(v): return rec and any(m[2] == v for m in s.marks(st, 'pass'))
        def ispw(v):
            if any(m[2] == v for m in s.marks(st, 'hash')): return 'hash'
            if ('a', 2) in s.src(e, st, v): return 'plain'
            return None
        for a, b in ((0, 1), (1, 0)):
            k = ispw(args[a])
            if k and isrec(args[b]) and name == 'strcmp':
                s.put(st, 'cmp', r, k); s.n('complete_comparisons'); return
        s.n('other_comparisons'); s.put(st, 'part', r)

    def on_exit(s, e, f, ins, st, rv, reach):
        if rv is None: return
        if f.name == 'u_pwd_auth_user':
            x = e.fact(st, rv)
            if x[0] > 0 or x[1] < 0 or 0 in x[2]: return
            s.n('accepting_exits')
            ok = [m for m in s.marks(st, 'cmp') if rv == m[2] or eq0(e, st, m[2])] + s.marks(st, 'cmpok')
            if not ok:
                s.err(f, ins.line, st, 'success can be returned without a complete comparison of the supplied password with the retrieved one')
                return
            cb = st.mem.get((('a', 0), s.off['cb_hash']))
            n = e.isnull(st, cb[0] if cb else ('m', ('a', 0), s.off['cb_hash']))
            if not any(m[3] == 'hash' for m in ok) and n is not True:
                s.err(f, ins.line, st, 'success can be returned after a clear text comparison although a hash function may be configured')
        elif f.name == 'u_pwd_retr':
            x = e.fact(st, rv)
            if x[0] > 0 or x[1] < 0 or 0 in x[2]: return
            R = [m[2] for m in s.marks(st, 'out')]
            R = R[0] if R else None
            s.n('retrieving_exits')
            if R is None: s.err(f, ins.line, st, 'success without a record'); return
            g = [m for m in s.marks(st, 'got') if m[3] == R]
            if g:
                if not any(m[2] == ('a', 1) for m in g) or not s.marks(st, 'gotok'): s.err(f, ins.line, st, 'the record does not come from a successful lookup of the requested user')
                return
            s.line(e, f, ins, st, R)

    def line(s, e, f, ins, st, R):
        """record built from a line of the password file"""
        ok = False
        for m in s.marks(st, 'equal'):
            if m[2] == 'strstr':
                if s.prefix(e, st, m[4]): ok = True; buf = m[3]
            elif m[2] in ('strncmp', 'memcmp'):
                for a, b in ((3, 4), (4, 3)):
                    if s.prefix(e, st, m[b]) and any(q[2] == m[b] and q[3] == m[6] for q in s.marks(st, 'len')): ok = True; buf = m[a]
            elif m[2] == 'strcmp':
                for a, b in ((3, 4), (4, 3)):
                    t = s.token(st, m[a])
                    if t and t[0] == 0 and ('a', 1) in s.src(e, st, m[b]): ok = True; buf = t[1]
        if not ok: s.err(f, ins.line, st, 'a record is returned for a line that was not matched against the complete user name up to its delimiter'); return
        for k, fld in ((0, 'user'), (1, 'pass')):
            t = [s.token(st, x) for m in s.marks(st, 'fld') if m[2:4] == (R, s.off[fld]) for x in s.src(e, st, m[4])]
            if not any(x and x[0] == k and x[1] == buf for x in t):
                s.err(f, ins.line, st, 'the record member %s is not field %d of the matched line' % (fld, k + 1))

    def prefix(s, e, st, v): return any(m[2] == v and eq0(e, st, m[4]) and m[3] == ('a', 1) for m in s.marks(st, 'fmt'))

def c22(pid, tier):
    r = Result('Static helpers are expanded into the public functions by the compiler; then, path by path: (1) u_pwd_auth_user may return 0 only after a full strcmp of the complete password argument (or of the output of the configured hash function applied to all of it) with the password member of the record that a successful retrieval for the requested user delivered, and only with that result; '
               '(2) u_pwd_retr may succeed only with the outcome of a successful snapshot lookup under the requested name, or with a record whose user/password members are complete copies of field 1/2 of a line just read and matched from its start against the complete "name:"; (3) snapshot insertions use the record\'s own name as key.')
    p = compile_all(inline=True)
    f = p.functions.get('u_pwd_auth_user'); g = p.functions.get('u_pwd_retr')
    if f is None or g is None: raise AnalysisError('u_pwd_auth_user/u_pwd_retr are gone')
    off = members(f.mod, 'u_pwd_rec_s'); o2 = members(f.mod, 'u_pwd_s')
    if 'pass' not in off or 'user' not in off or 'cb_hash' not in o2: raise AnalysisError('members of the password record or context were renamed')
    h = Pwd(dict(user=off['user'], **{'pass': off['pass'], 'cb_hash': o2['cb_hash']}))
    e = engine.Engine(p, models.MODELS, [h])
    e.only([x for x in p.allfns if os.path.basename(x.file) == 'pwd.c' and any(p.calleename(i) in ('strcmp', 'u_hmap_easy_put') for i in x.calls()) or x is f or x is g]); e.run(1)
    for f, line, msg, path in h.bad.values(): r.add(f.file, line, f.name, 'auth', msg, path)
    r.cov.update(h.cnt)
    for k in ('accepting_exits', 'retrieving_exits', 'complete_comparisons', 'snapshot_insertions', 'retrievals'): r.need(k, 1)
    return r
