"""C27: URI recomposition emits the components in order with their delimiters."""
import os
from ir import compile_all, consts, sizeof, AnalysisError
import engine, models
from engine import INF, NZ, root, lines
from checks.framework import Result
from checks.util import members, cstr
from checks.netck import Net, ands

COMP = ('scheme', 'userinfo', 'user', 'pwd', 'authority', 'host', 'port', 'path', 'query', 'fragment')

class Knead(Net):
    """marks: ('seq', emitted pieces) ('len', value, member) ('ne', member, 0/1) ('bit', K, 0/1)"""
    def __init__(s, off, K): s.off = off; s.K = K; Net.__init__(s, K)
    @property
    def bitset(s): return {s.K['U_URI_FLAGS_HOST_IS_IPLITERAL']}
    def member(s, v):
        if v == ('a', 0): v = ('p', ('a', 0), 0)
        if v[0] == 'p' and v[1] == ('a', 0): return s.byoff.get(v[2])
        return None
    @property
    def byoff(s): return {o: n for n, o in s.off.items() if n in COMP}
    def settle(s, e, st):
        for m in s.marks(st, 'len'):
            x = e.fact(st, m[2])
            if x[0] == x[1] == 0: s.put(st, 'ne', m[3], 0)
            elif x[0] > 0 or 0 in x[2] or x[1] < 0: s.put(st, 'ne', m[3], 1)
    def on_taken(s, e, f, term, st, c, b):
        if f.name != 'u_uri_knead': return
        s.bits(e, st, c); s.settle(e, st)
    def on_loaded(s, e, f, ins, st, p, v):
        if f.name != 'u_uri_knead' or ins.ty.k != 'int' or ins.ty.w != 8: return
        m = s.member(p)
        if m: s.put(st, 'len', v, m)
    def seq(s, st):
        q = s.marks(st, 'seq'); return q[0][2] if q else ()
    def setseq(s, st, q): s.drop(st, lambda m: m[1] == 'seq'); s.put(st, 'seq', q)
    def piece(s, f, v):
        m = s.member(v)
        if m: return m
        b = cstr(f, v)
        return b.decode('latin1') if b is not None else None
    def on_call(s, e, f, ins, st, name, args): return None
    def on_store(s, e, f, ins, st, p, v, tag):
        if f.name != 'u_uri_knead': return
        if p == ('a', 1) and v == ('c', 0): s.setseq(st, ())
        elif root(p) == ('a', 1): s.setseq(st, s.seq(st) + ('<other>',))
        m = p[2] if p[0] == 'p' and p[1] == ('a', 0) else 0 if p == ('a', 0) else None
        if m == s.off['flags']: s.drop(st, lambda x: x[1] == 'bit')
    def after_call(s, e, f, ins, st, name, args, targets):
        if f.name != 'u_uri_knead': return
        r = st.env.get(ins.res) if ins.res is not None else None
        if name == 'strlen':
            m = s.member(args[0])
            if m: s.put(st, 'len', r, m)
        elif args and root(args[0]) == ('a', 1):
            x = e.fact(st, r) if r is not None else (0, 0, ())
            if name in ('u_strlcat', 'u_strlcpy', 'strlcat', 'strlcpy', 'strcat', 'strcpy') and args[0] == ('a', 1):
                if name[:2] == 'u_' and (x[0] != 0 or x[1] != 0): s.setseq(st, s.seq(st) + ('!',)); return
                if name[:2] != 'u_': s.err(f, ins.line, st, 'a piece of the URI is appended without a check that it fits')
                q = s.piece(f, args[1]); s.n('pieces_emitted')
                q = (q if q is not None else '<other>',) if q != '' else ()
                s.setseq(st, q if 'cpy' in name else s.seq(st) + q)
            elif name in ('strchr', 'strlen', 'u_log_write_ex') or (name or '').startswith('llvm.'): pass
            else: s.setseq(st, s.seq(st) + ('<other>',))
    def known(s, st, m):
        r = {x[3] for x in s.marks(st, 'ne') if x[2] == m}
        return r.pop() if len(r) == 1 else None
    def on_exit(s, e, f, ins, st, rv, reach):
        if f.name != 'u_uri_knead' or rv is None: return
        s.settle(e, st)
        x = e.fact(st, rv)
        if x[0] > 0 or x[1] < 0: return
        s.n('successful_exits')
        q = s.seq(st); s.cnt['seq:' + ' '.join(q)] = 1
        w = s.judge(st, q)
        if w: s.err(f, ins.line, st, 'a URI may be composed as %s: %s' % (' '.join(q), w))
    def judge(s, st, q):
        if '!' in q: return 'a piece that did not fit is followed by success'
        if '<other>' in q: return 'a piece is not a component or a delimiter'
        i = 0; q = list(q); got = set()
        def peek(): return q[0] if q else None
        def comp(n, delim_ok=True):
            """component n when it is next"""
            if peek() == n: q.pop(0); got.add(n); return True
            return False
        K = lambda n: s.known(st, n)
        if comp('scheme'):
            if peek() != ':': return 'scheme without a colon'
            q.pop(0)
            if K('scheme') != 1: return 'scheme delimiter without regard to whether there is a scheme'
        elif K('scheme') != 0: return 'the scheme is missing'
        if peek() == '//':
            q.pop(0)
            if comp('authority'):
                if K('authority') != 1: return 'authority delimiter without regard to whether there is an authority'
            else:
                if K('authority') != 0: return 'the stored authority is ignored'
                if comp('userinfo'):
                    if K('userinfo') != 1: return 'user information delimiter without regard to whether there is user information'
                    if peek() != '@': return 'user information is not followed by an at-sign'
                    q.pop(0)
                else:
                    if K('userinfo') != 0: return 'the user information is missing'
                    if comp('user'):
                        if K('user') != 1: return 'user delimiter without regard to whether there is a user'
                        if peek() == ':':
                            q.pop(0)
                            if not comp('pwd') or K('pwd') != 1: return 'password delimiter without a password'
                        elif K('pwd') != 0: return 'the password is missing'
                        if peek() != '@': return 'user information is not followed by an at-sign'
                        q.pop(0)
                    elif K('user') != 0: return 'the user is missing'
                b = {m[3] for m in s.marks(st, 'bit')}
                b = b.pop() if len(b) == 1 else None
                if peek() == '[':
                    q.pop(0)
                    if not comp('host') or peek() != ']': return 'the bracket of the host is not closed after it'
                    q.pop(0)
                    if b != 1: return 'host in brackets although it need not be an IP literal'
                else:
                    if not comp('host'): return 'the host is missing'
                    if b != 0: return 'host without brackets although it may be an IP literal'
                if K('host') != 1: return 'authority delimiter without regard to whether there is a host'
                if peek() == ':':
                    q.pop(0)
                    if not comp('port') or K('port') != 1: return 'port delimiter without a port'
                elif K('port') != 0: return 'the port is missing'
        else:
            if K('authority') != 0: return 'the authority is missing'
            if K('host') != 0: return 'the host is missing'
        if not comp('path') and K('path') != 0: return 'the path is missing'
        for d, n in (('?', 'query'), ('#', 'fragment')):
            if peek() == d:
                q.pop(0)
                if not comp(n) or K(n) != 1: return '%s delimiter without a %s' % (n, n)
            elif K(n) != 0: return 'the %s is missing' % n
        if q: return 'unexpected %s' % q[0]
        return None

def c27(pid, tier):
    r = Result('Static helpers are expanded by the compiler; then the pieces u_uri_knead appends to its output on every path are collected and the sequence at each successful exit is matched against the component grammar of RFC 3986 section 5.3, with what the path knows about each component being empty: '
               'a component and its delimiters appear together, exactly when the component is not empty, in order, and every append has succeeded. Every u_uri_get_X / u_uri_set_X works on the member X, within its size.')
    p = compile_all(inline=True)
    f = p.functions.get('u_uri_knead')
    if f is None: raise AnalysisError('u_uri_knead is gone')
    off = members(f.mod, 'u_uri_s')
    if any(c not in off for c in COMP) or 'flags' not in off: raise AnalysisError('members of the URI object were renamed')
    K = consts(['U_URI_FLAGS_HOST_IS_IPLITERAL'])
    h = Knead(off, K)
    e = engine.Engine(p, models.MODELS, [h]); e.only([f]); e.run(1)
    for g, line, msg, path in h.bad.values():
        if g.name == 'u_uri_knead': r.add(g.file, line, g.name, 'order', msg, path)
    r.cov.update({k: v for k, v in h.cnt.items() if not k.startswith('seq:')})
    sq = sorted(k[4:] for k in h.cnt if k.startswith('seq:'))
    r.cov['compositions'] = len(sq)
    for q in sq[::13]: r.sample(q)
    # accessors
    t = f.mod.types.get('struct.u_uri_s')
    size = {}
    from ir import fieldoff
    for k in range(len(t.elems)): size[fieldoff(t, k)] = sizeof(t.elems[k])
    for m in COMP:
        g = p.functions.get('u_uri_get_' + m)
        if g is not None:
            r.count('accessors')
            for i in g.insts():
                if i.op == 'ret':
                    for o in offs(g, i.a[0]):
                        if o != off[m] and o is not None: r.add(g.file, i.line, g.name, 'order', 'the accessor of %s returns another component' % m)
        g = p.functions.get('u_uri_set_' + m)
        if g is not None:
            r.count('accessors')
            for i in g.calls():
                if p.calleename(i) in ('u_strlcpy', 'u_snprintf', 'strlcpy'):
                    o = offs(g, i.a[0]); n = i.a[2] if 'strl' in p.calleename(i) else i.a[1]
                    if o != {off[m]}: r.add(g.file, i.line, g.name, 'order', 'the setter of %s changes another component' % m)
                    elif n[0] == 'c' and n[1] > size[off[m]]: r.add(g.file, i.line, g.name, 'order', 'the setter of %s writes beyond the component' % m)
    r.need('successful_exits', 8); r.need('compositions', 16); r.need('accessors', 12)
    return r

def offs(f, v, seen=()):
    """member offsets (from the first parameter) a pointer value can have; None = not a member (NULL)"""
    from checks.recursion import chain
    if v[0] == 'c': return {None}
    if v[0] == '%':
        if v in seen: return set()
        d = f.defs.get(v[1])
        if d is not None and d.op == 'phi':
            out = set()
            for x, l in d.a: out |= offs(f, x, seen + (v,))
            return out
        if d is not None and d.op == 'select': return offs(f, d.a[1], seen + (v,)) | offs(f, d.a[2], seen + (v,))
        c = chain(f, v)
        if c is not None and c[0] == ('%', f.params[0][1]): return {c[1]}
    return {-1}
