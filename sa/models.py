"""Effects of the allocator entry points, of the platform functions and of compiler intrinsics."""
from engine import *

ERRNO = ('g', 'errno')

def oknull(s, f, ins, st, v, what):
    """v must point to something (a callee dereferences it)"""
    r = root(v)
    if r[0] == 'f': return True
    return s.check_addr(f, ins, st, v, what)

def content_read(s, f, ins, st, v, name, j):
    r = root(v)
    if not s.alive(f, ins, st, v, 'argument %d of %s' % (j + 1, name)): return False
    if s.argterm(r): s.note_read(r)
    if r[0] == 'al' or (r in st.res and st.res[r].fresh):
        it = st.init.get(r)
        if it is None and r[0] == 'al': it = 'undef'
        if it == 'undef':
            off = v[2] if v[0] == 'p' else 0
            if not any(b == r for b, o in st.mem):
                s.report(f, 'uninit', ins.line, '%s, read by %s, has not been set' % (s.describe(f, r), name), st)
                st.init[r] = 'some'
    return True

def havoc_out(s, st, v):
    """callee fills the object v points to"""
    r = root(v)
    if r[0] in ('c', 'f', 'undef'): return
    if r[0] == 'al' or r in st.res:
        s.kill(st, lambda k, m: k[0] == r); st.init[r] = 'some'
    else:
        s.kill(st, lambda k, m: k[0] == r or (m[1][0] == 'raw' and k[0][0] != 'al' and not (k[0] in st.res and st.res[k[0]].fresh) and m[2] == 1))
        if r[0] == 'a': st.mark = st.mark | {('init', r[1])}

def fork_fail(s, st): return st.copy()

# ---------------------------------------------------------------- heap
def alloc(kind, init, failarg=None):
    def m(s, f, ins, st, args):
        n = st.copy(); s.note_fail(n, ins)
        s.setret(n, ins, ('c', 0))
        v = s.fresh(st, ins, 'new')
        s.acquire(st, ins, v, kind, init, what=s.prog.calleename(ins) or 'call')
        s.setret(st, ins, v)
        s.on('alloc', f, ins, st, v, args, n)
        return [st, n]
    return m

def strdup_like(kind):
    a = alloc(kind, 'some')
    def m(s, f, ins, st, args):
        if not oknull(s, f, ins, st, args[0], 'read'): return []
        content_read(s, f, ins, st, args[0], s.prog.calleename(ins), 0)
        return a(s, f, ins, st, args)
    return m

def free_(kind):
    def m(s, f, ins, st, args):
        p = args[0]
        if p[0] == 'c': return [st]
        r = root(p)
        n = s.isnull(st, p)
        if n is True: return [st]
        if p[0] in ('p', 'px') and p[0] == 'p' and p[2] != 0 and kind in ('heap', 'cheap'):
            s.report(f, 'kind', ins.line, 'release of an address inside %s' % s.describe(f, r), st)
        out = []
        if n is None and r[0] in ('a', 'm', 's', 'o') and p == r:
            z = st.copy()
            if s.setfact(z, r, (0, 0, frozenset())): out.append(z)
            s.setfact(st, r, (1, INF, NZ))
        if not s.release(f, ins, st, p, kind, '%s' % (s.prog.calleename(ins) or 'release')): return out
        return out + [st]
    return m

def realloc_(kind):
    def m(s, f, ins, st, args):
        p = args[0]
        if p[0] == 'undef': return [st]
        r = root(p)
        n = st.copy(); s.note_fail(n, ins); s.setret(n, ins, ('c', 0))
        isn = s.isnull(st, p)
        init = 'undef' if isn is True else 'some'
        if isn is not True:
            if not s.alive(f, ins, st, p, 'realloc'): return []
            if r[0] in ('s', 'o') or r in st.res or s.argterm(r):
                if not s.release(f, ins, st, p, kind, 'realloc'): return [n]
                st.res[r] = st.res[r].with_(st='F') if r in st.res else st.res.get(r)
                if isn is None and r in st.res and r[0] in ('s','m','a','o'): pass
        v = s.fresh(st, ins, 'new')
        # contents move over
        moved = {o: m for (b, o), m in st.mem.items() if b == r} if p == r else {}
        s.acquire(st, ins, v, kind, init, what=s.prog.calleename(ins) or 'call')
        for o, m in moved.items(): st.mem[(v, o)] = m
        s.setret(st, ins, v)
        s.on('alloc', f, ins, st, v, args, n)
        return [st, n]
    return m

# ---------------------------------------------------------------- generic platform functions
def spec(reads=(), outs=(), must=(), ret=None, acq=None, rel=None, pure=False, ptr=False, nullable=(), failval=None, caps=(), okret=None, errret=None, outcond=False):
    """reads: args whose content is read; outs: args filled in; must: args that must be valid; ret: (lo,hi) of the result;
    acq: resource kind acquired by the result; rel: (arg,kind) released; ptr: result is a pointer that may be NULL"""
    def m(s, f, ins, st, args):
        name = s.prog.calleename(ins) or 'callback'
        for j in must:
            if j < len(args) and args[j][0] != 'undef':
                if j in nullable and s.isnull(st, args[j]) is True: continue
                if j in nullable:
                    if not s.alive(f, ins, st, args[j], 'argument %d of %s' % (j + 1, name)): return []
                    continue
                if not oknull(s, f, ins, st, args[j], 'use by %s' % name): return []
        for j in reads:
            if j < len(args): content_read(s, f, ins, st, args[j], name, j)
        if rel is not None:
            j, kind = rel
            p = args[j]
            if p[0] != 'undef' and p[0] != 'c':
                if not s.release(f, ins, st, p, kind, name): return []
        failst = None
        if errret is not None and outs: failst = st.copy(); 
        for j in outs:
            if j < len(args): havoc_out(s, st, args[j])
        if acq is not None:
            kind, fv = acq
            n = st.copy(); s.note_fail(n, ins); s.setret(n, ins, ('c', fv))
            v = s.fresh(st, ins, 'new'); s.acquire(st, ins, v, kind, 'some' if kind != 'fd' else None, what=name)
            s.setret(st, ins, v)
            return [st, n]
        if ins.res is not None:
            v = s.newsym(st, ins, 'r'); s.setret(st, ins, v)
            if ret is not None: st.facts[v] = (ret[0], ret[1], frozenset())
            else: s.rng(st, v, ins.ty)
            if okret is not None: st.facts[v] = okret
        if failst is not None:
            n = failst
            if ins.res is not None:
                v = s.newsym(n, ins, 'r'); s.setret(n, ins, v); n.facts[v] = errret
            if okret is None and ins.res is not None:
                # remove the failing values from the success state
                if errret[0] == errret[1]: 
                    if not s.setfact(st, s_env(st, ins), (-INF, INF, frozenset((errret[0],)))): return [n]
            return [st, n]
        return [st]
    m.acq = acq; m.rel = rel
    return m

def s_env(st, ins): return st.env[ins.res]

Z = frozenset()
ZERO = (0, 0, Z); NEG1 = (-1, -1, Z)

def strchr_(s, f, ins, st, args):
    name = s.prog.calleename(ins)
    if not oknull(s, f, ins, st, args[0], 'use by %s' % name): return []
    content_read(s, f, ins, st, args[0], name, 0)
    n = st.copy(); s.setret(n, ins, ('c', 0))
    r = root(args[0])
    ix = s.fresh(st, ins, 'ix'); st.facts[ix] = (0, INF, Z)
    s.setret(st, ins, ('px', r, 0, ix, 1) if r[0] not in ('f',) else s.newsym(st, ins, 'r'))
    return [st, n]

def memcpy_(s, f, ins, st, args):
    d, src, n = args[0], args[1], args[2]
    if n[0] == 'c' and n[1] == 0: return [st]
    zero_ok = s.fact(st, n)[0] <= 0 if n[0] != 'c' else False
    if not zero_ok:
        if not oknull(s, f, ins, st, d, 'write'): return []
        if not oknull(s, f, ins, st, src, 'read'): return []
    else:
        if not s.alive(f, ins, st, d, 'memory copy'): return []
        if not s.alive(f, ins, st, src, 'memory copy'): return []
    content_read(s, f, ins, st, src, 'memory copy', 1)
    s.on('memcpy', f, ins, st, args)
    rd, rs = root(d), root(src)
    do = d[2] if d[0] == 'p' else (0 if d == rd else None); so = src[2] if src[0] == 'p' else (0 if src == rs else None)
    if n[0] == 'c' and do is not None and so is not None:
        L = n[1]
        moved = [(o, m) for (b, o), m in st.mem.items() if b == rs and so <= o and o + m[2] <= so + L]
        exact = all(not (b == rs) or (so <= o and o + m[2] <= so + L) or o + m[2] <= so or o >= so + L for (b, o), m in st.mem.items())
        s.kill(st, lambda k, m: k[0] == rd and k[1] < do + L and do < k[1] + m[2])
        if not (rd[0] == 'al' or rd in st.res and st.res[rd].fresh):
            s.kill(st, lambda k, m: k[0] != rd and k[0] != rs and k[0][0] != 'al' and not (k[0] in st.res and st.res[k[0]].fresh) and False)
        whole = any(1 for _ in [0])
        for o, m in moved: st.mem[(rd, o - so + do)] = m; st.dirty = st.dirty | {(rd, o - so + do)}
        it = st.init.get(rs)
        g = s.gvar(rs) if rs[0] == 'g' else None
        if g is not None and g.const and g.init is not None and g.init[0] == 'zero' : it = 'zero'
        if rd[0] == 'al' or rd in st.init:
            sz = s.objsize(f, rd)
            if it == 'zero' and (sz is None or sz == L): st.init[rd] = 'zero'
            elif it == 'undef' and moved and (sz is None or sz == L): st.init[rd] = 'undef'
            else: st.init[rd] = 'some'
        if rd[0] == 'a': st.mark = st.mark | {('init', rd[1])}
        # content of the source on entry is named through the destination
        if g is not None and g.const and g.init is not None and g.ty.k in ('array', 'struct') and g.init[0] == 'agg' and so == 0:
            copyconst(s, st, rd, do, g)
    else:
        havoc_out(s, st, d)
    return [st]

def copyconst(s, st, rd, do, g):
    def go(t, v, off):
        if t.k == 'struct':
            if v[0] == 'zero': return
            for i, e in enumerate(t.elems):
                if v[0] == 'agg': go(v[1][i][0], v[1][i][1], off + fieldoff(t, i))
        elif t.k == 'array' and v[0] == 'agg' and len(v[1]) <= 32:
            for i, (tt, vv) in enumerate(v[1]): go(tt, vv, off + i * sizeof(t.elem))
        elif t.k in ('int', 'ptr') and v[0] == 'c':
            st.mem[(rd, off)] = (v, ('raw', repr(t)), sizeof(t), repr(t))
    go(g.ty, g.init, do)

def memset_(s, f, ins, st, args):
    d, c, n = args[0], args[1], args[2]
    if n[0] == 'c' and n[1] == 0: return [st]
    if not oknull(s, f, ins, st, d, 'write'): return []
    s.on('memset', f, ins, st, args)
    r = root(d)
    whole = d == r
    sz = s.objsize(f, r)
    s.kill(st, lambda k, m: k[0] == r)
    full = whole and c == ('c', 0) and (sz is None or n == ('c', sz))
    if r[0] == 'al' or r in st.res: st.init[r] = 'zero' if full else 'some'
    elif full and n[0] == 'c' and r[0] in ('a', 'm'):
        st.init[r] = 'zero'; st.mark = st.mark | ({('init', r[1])} if r[0] == 'a' else frozenset())
    elif r[0] == 'a': st.mark = st.mark | {('init', r[1])}
    return [st]

def nop(s, f, ins, st, args):
    if ins.res is not None: s.setret(st, ins, s.newsym(st, ins, 'r'))
    return [st]

def errno_(s, f, ins, st, args):
    # every call may have changed errno: its content is never remembered across calls
    s.setret(st, ins, ERRNO); return [st]

def ctype_b(s, f, ins, st, args):
    v = s.newsym(st, ins, 'tab'); st.facts[v] = (1, INF, NZ); 
    s.setret(st, ins, v); st.mem[(v, 0)] = (('g', 'ctype_table'), ('raw', 'ptr'), 8, 'ptr'); return [st]

def vastart(s, f, ins, st, args):
    r = root(args[0]); s.kill(st, lambda k, m: k[0] == r); st.init[r] = 'some'; s.on('va', f, ins, st, 'start', r); return [st]
def vaend(s, f, ins, st, args):
    s.on('va', f, ins, st, 'end', root(args[0])); return [st]
def vacopy(s, f, ins, st, args):
    r = root(args[0]); st.init[r] = 'some'; s.on('va', f, ins, st, 'copy', r); return [st]

def isfp(s, f, ins, st, args):
    v = s.newsym(st, ins, 'r'); st.facts[v] = (0, 1, Z); s.setret(st, ins, v); return [st]

def strsep_(s, f, ins, st, args):
    # *arg0 is advanced or set to NULL; result is the old *arg0
    if not oknull(s, f, ins, st, args[0], 'use by strsep'): return []
    p = args[0]; b, o = (p[1], p[2]) if p[0] == 'p' else (p, 0)
    cur = s.load(f, ins, st, p, PTR, ('raw', 'ptr')) if p[0] != 'px' else s.newsym(st, ins, 'cur')
    if cur[0] == 'undef': s.undef_use(f, ins, st, 'strsep', ins.a[0]); return []
    n = s.isnull(st, cur); out = []
    if n is not False:
        z = st.copy()
        if s.assume_cmp(z, 'eq', cur, NULLV): s.setret(z, ins, ('c', 0)); out.append(z)
    if n is not True and s.assume_cmp(st, 'ne', cur, NULLV):
        s.alive(f, ins, st, cur, 'strsep')
        if p[0] != 'px':
            z = st.copy()
            ix = s.fresh(st, ins, 'ix'); st.facts[ix] = (1, INF, Z)
            r = root(cur)
            s.storemem(st, p, ('px', r, 0, ix, 1), PTR, ('raw', 'ptr'))
            s.setret(st, ins, cur); out.append(st)
            s.storemem(z, p, ('c', 0), PTR, ('raw', 'ptr')); s.setret(z, ins, cur); out.append(z)
        else:
            s.setret(st, ins, cur); out.append(st)
    return out

def noret(s, f, ins, st, args): return []

def fdclose(s, f, ins, st, args):
    p = args[0]
    if p[0] not in ('c', 'undef'):
        if s.fact(st, p)[1] < 0: pass
        elif not s.release(f, ins, st, p, 'fd', 'close'): return []
    if ins.res is not None:
        v = s.newsym(st, ins, 'r'); st.facts[v] = (-1, 0, Z); s.setret(st, ins, v)
    return [st]

def fdopen_(s, f, ins, st, args):
    """on success the stream owns the descriptor"""
    n = st.copy(); s.note_fail(n, ins); s.setret(n, ins, ('c', 0))
    d = args[0]
    if d in st.res and st.res[d].st == 'L': st.res[d] = st.res[d].with_(st='E', fresh=False)
    v = s.fresh(st, ins, 'new'); s.acquire(st, ins, v, 'stream', 'some', what='fdopen'); s.setret(st, ins, v)
    return [st, n]

def mmap_(s, f, ins, st, args):
    n = st.copy(); s.note_fail(n, ins); s.setret(n, ins, ('c', -1))
    fixed = args[3][0] == 'c' and args[3][1] & 0x10
    if fixed:
        # replaces part of an existing mapping: no new resource
        s.setret(st, ins, args[0]); return [st, n]
    v = s.fresh(st, ins, 'new'); s.acquire(st, ins, v, 'map', 'zero', what='mmap'); s.setret(st, ins, v)
    st.init[v] = 'some'
    return [st, n]

def munmap_(s, f, ins, st, args):
    if args[0][0] not in ('c', 'undef'):
        if not s.release(f, ins, st, args[0], 'map', 'munmap'): return []
    if ins.res is not None:
        v = s.newsym(st, ins, 'r'); st.facts[v] = (-1, 0, Z); s.setret(st, ins, v)
    return [st]

def getaddrinfo_(s, f, ins, st, args):
    n = st.copy(); s.note_fail(n, ins); v = s.newsym(n, ins, 'r'); n.facts[v] = (-INF, INF, NZ); s.setret(n, ins, v)
    content_read(s, f, ins, st, args[2], 'getaddrinfo', 2) if args[2][0] != 'c' else None
    x = s.fresh(st, ins, 'ai'); s.acquire(st, ins, x, 'addrinfo', 'some', what='getaddrinfo')
    fam = s.newsym(st, ins, 'fam'); st.facts[fam] = (2, INF, NZ); st.mem[(x, 4)] = (fam, ('raw', 'i32'), 4, 'i32')
    p = args[3]
    if oknull(s, f, ins, st, p, 'write'):
        s.storemem(st, p, x, PTR, ('raw', 'ptr'))
    s.setret(st, ins, ('c', 0))
    return [st, n]

def fgets_(s, f, ins, st, args):
    # a freed/NULL stream is an error; buffer filled on success
    if not oknull(s, f, ins, st, args[2], 'use by fgets'): return []
    if not oknull(s, f, ins, st, args[0], 'write'): return []
    n = st.copy(); s.setret(n, ins, ('c', 0))
    havoc_out(s, st, args[0]); s.setret(st, ins, args[0])
    return [st, n]

PM = lambda *a, **k: spec(*a, **k)
MODELS = {
    # the library's allocator front end
    'u_malloc': alloc('heap', 'undef'), 'u_calloc': alloc('heap', 'zero'), 'u_zalloc': alloc('heap', 'zero'),
    'u_realloc': realloc_('heap'), 'u_free': free_('heap'),
    # the platform's own
    'malloc': alloc('cheap', 'undef'), 'calloc': alloc('cheap', 'zero'), 'realloc': realloc_('cheap'), 'free': free_('cheap'),
    'strdup': strdup_like('cheap'), 'strndup': strdup_like('cheap'),
    'llvm.memcpy.p0.p0.i64': memcpy_, 'llvm.memmove.p0.p0.i64': memcpy_, 'llvm.memset.p0.i64': memset_,
    'llvm.va_start': vastart, 'llvm.va_end': vaend, 'llvm.va_copy': vacopy, 'llvm.va_start.p0': vastart, 'llvm.va_end.p0': vaend, 'llvm.va_copy.p0': vacopy,
    'llvm.is.fpclass.f64': isfp, 'llvm.stacksave.p0': nop, 'llvm.stackrestore.p0': nop,
    'llvm.dbg.declare': nop, 'llvm.dbg.value': nop, 'llvm.lifetime.start.p0': nop, 'llvm.lifetime.end.p0': nop,
    '__errno_location': errno_, '__ctype_b_loc': ctype_b,
    'exit': noret, '_exit': noret, 'abort': noret,
    # strings
    'strlen': PM(reads=(0,), must=(0,), ret=(0, INF)), 'strcmp': PM(reads=(0, 1), must=(0, 1)), 'strcasecmp': PM(reads=(0, 1), must=(0, 1)),
    'strncmp': PM(reads=(0, 1), must=(0, 1)), 'strncasecmp': PM(reads=(0, 1), must=(0, 1)), 'memcmp': PM(reads=(0, 1), must=(0, 1)),
    'strcspn': PM(reads=(0, 1), must=(0, 1), ret=(0, INF)), 'strspn': PM(reads=(0, 1), must=(0, 1), ret=(0, INF)),
    'strnlen': PM(reads=(0,), must=(0,), ret=(0, INF)),
    'strchr': strchr_, 'strrchr': strchr_, 'strstr': strchr_, 'strpbrk': strchr_, 'memchr': strchr_,
    'strlcpy': PM(reads=(1,), outs=(0,), must=(0, 1), ret=(0, INF)), 'strlcat': PM(reads=(0, 1), outs=(0,), must=(0, 1), ret=(0, INF)),
    'strncpy': PM(reads=(1,), outs=(0,), must=(0, 1), ptr=True), 'strcpy': PM(reads=(1,), outs=(0,), must=(0, 1)), 'strcat': PM(reads=(0, 1), outs=(0,), must=(0, 1)),
    'strncat': PM(reads=(0, 1), outs=(0,), must=(0, 1)),
    'snprintf': PM(reads=(2,), outs=(0,), must=(2,)), 'sprintf': PM(reads=(1,), outs=(0,), must=(0, 1)),
    'vsnprintf': PM(reads=(2,), outs=(0,), must=(2,)), 'vsprintf': PM(reads=(1,), outs=(0,), must=(0, 1)),
    'printf': PM(reads=(0,), must=(0,)), 'vprintf': PM(reads=(0,), must=(0,)), 'puts': PM(reads=(0,), must=(0,)),
    'fprintf': PM(reads=(1,), must=(0, 1)), 'vfprintf': PM(reads=(1,), must=(0, 1)), 'fputs': PM(reads=(0,), must=(0, 1)), 'fputc': PM(must=(1,)), 'putc': PM(must=(1,)),
    'syslog': PM(reads=(1,), must=(1,)), 'vsyslog': PM(reads=(1,), must=(1,)),
    'strtol': PM(reads=(0,), outs=(1,), must=(0,), nullable=()), '__isoc23_strtol': PM(reads=(0,), outs=(1,), must=(0,)),
    'strtoumax': PM(reads=(0,), outs=(1,), must=(0,)), '__isoc23_strtoumax': PM(reads=(0,), outs=(1,), must=(0,)), 'strtod': PM(reads=(0,), outs=(1,), must=(0,)),
    'strtoul': PM(reads=(0,), outs=(1,), must=(0,)), '__isoc23_strtoul': PM(reads=(0,), outs=(1,), must=(0,)), 'atoi': PM(reads=(0,), must=(0,)), 'atol': PM(reads=(0,), must=(0,)),
    '__isoc23_strtoll': PM(reads=(0,), outs=(1,), must=(0,)), '__isoc23_strtoull': PM(reads=(0,), outs=(1,), must=(0,)), '__isoc23_strtoimax': PM(reads=(0,), outs=(1,), must=(0,)),
    'strerror': PM(), 'strerror_r': PM(outs=(1,)), 'strsep': strsep_,
    'toupper': PM(), 'tolower': PM(), 'isspace': PM(),
    # files
    'fopen': PM(reads=(0, 1), must=(0, 1), acq=('stream', 0)), 'popen': PM(reads=(0, 1), must=(0, 1), acq=('pipe', 0)), 'tmpfile': PM(acq=('stream', 0)),
    'fdopen': fdopen_, 'fclose': PM(must=(0,), rel=(0, 'stream'), ret=(-1, 0)), 'pclose': PM(must=(0,), rel=(0, 'pipe')),
    'freopen': PM(reads=(0, 1)),
    'fgets': fgets_, 'fread': PM(outs=(0,), must=(0, 3), ret=(0, INF)), 'fwrite': PM(reads=(0,), must=(0, 3), ret=(0, INF)), 'fflush': PM(must=(), ret=(-1, 0)),
    'ferror': PM(must=(0,)), 'feof': PM(must=(0,)), 'fileno': PM(must=(0,)), 'fseek': PM(must=(0,)), 'ftell': PM(must=(0,)), 'rewind': PM(must=(0,)), 'getc': PM(must=(0,)), 'fgetc': PM(must=(0,)), 'ungetc': PM(must=(1,)),
    'open': PM(reads=(0,), must=(0,), acq=('fd', -1)), 'open64': PM(reads=(0,), must=(0,), acq=('fd', -1)), 'close': fdclose, 'dup': PM(acq=('fd', -1)), 'mkstemp': PM(reads=(0,), must=(0,), acq=('fd', -1)),
    'read': PM(outs=(1,), must=(1,), ret=(-1, INF)), 'write': PM(reads=(1,), must=(1,), ret=(-1, INF)),
    'ftruncate': PM(ret=(-1, 0)), 'link': PM(reads=(0, 1), must=(0, 1), ret=(-1, 0)), 'unlink': PM(reads=(0,), must=(0,), ret=(-1, 0)), 'rename': PM(reads=(0, 1), must=(0, 1), ret=(-1, 0)), 'remove': PM(reads=(0,), must=(0,), ret=(-1, 0)),
    'stat': PM(reads=(0,), outs=(1,), must=(0, 1), errret=NEG1, okret=ZERO), 'fstat': PM(outs=(1,), must=(1,), errret=NEG1, okret=ZERO), 'lstat': PM(reads=(0,), outs=(1,), must=(0, 1), errret=NEG1, okret=ZERO),
    'mmap': mmap_, 'mmap64': mmap_, 'munmap': munmap_, 'sysconf': PM(),
    # sockets
    'socket': PM(acq=('fd', -1)), 'accept': PM(outs=(1, 2), acq=('fd', -1)), 'bind': PM(reads=(), must=(1,), ret=(-1, 0)), 'connect': PM(reads=(), must=(1,), ret=(-1, 0)), 'listen': PM(ret=(-1, 0)),
    'fcntl': PM(), 'select': PM(outs=(1, 2, 3, 4)), 'poll': PM(outs=(0,)), 'getsockopt': PM(outs=(3, 4), errret=NEG1, okret=ZERO), 'setsockopt': PM(reads=(3,), ret=(-1, 0)),
    'gettimeofday': PM(outs=(0,), ret=(-1, 0)), 'getaddrinfo': getaddrinfo_, 'freeaddrinfo': PM(rel=(0, 'addrinfo')), 'inet_ntop': PM(reads=(1,), outs=(2,), must=(1, 2)),
    'ntohs': PM(ret=(0, 65535)), 'htons': PM(ret=(0, 65535)), 'getsockname': PM(outs=(1, 2)),
    # misc
    'time': PM(outs=(0,)), 'localtime': PM(), 'gmtime': PM(), 'strftime': PM(outs=(0,)), 'getpid': PM(), 'getenv': PM(reads=(0,), must=(0,)), 'setenv': PM(reads=(0, 1), must=(0, 1), ret=(-1, 0)),
    'qsort': PM(must=()), 'rand': PM(ret=(0, INF)), 'random': PM(ret=(0, INF)), 'srand': PM(), 'srandom': PM(), 'sleep': PM(), 'usleep': PM(),
    'fork': PM(), 'kill': PM(), 'wait3': PM(outs=(0, 2)), 'waitpid': PM(outs=(1,)), 'sigaction': PM(outs=(2,)), 'sigemptyset': PM(outs=(0,)), 'uname': PM(outs=(0,)), 'getopt': PM(),
    'signal': PM(),
}
