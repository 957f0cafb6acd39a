"""C12: writes into buffers of a fixed size stay inside them."""
import os, re, signal, time
from concurrent.futures import ProcessPoolExecutor
from ir import compile_all, AnalysisError
import poly
from poly import L, Poly
from checks.framework import Result
import checks.numck

# bounded library calls: (buffer, size) argument positions; the size may be reached through a pointer
BOUNDED = {'inet_ntop': [(2, 3)], 'strftime': [(0, 1)], 'getcwd': [(0, 1)], 'readlink': [(1, 2)], 'gethostname': [(0, 1)], 'strerror_r': [(1, 2)], '__xpg_strerror_r': [(1, 2)],
           'getnameinfo': [(2, 3), (4, 5)], 'recvfrom': [(1, 2)], 'pread': [(1, 2)], 'getdomainname': [(0, 1)], 'realpath': [], 'confstr': [(1, 2)], 'wcstombs': [(0, 2)], 'mbstowcs': [(0, 2)], 'getrandom': [(0, 1)], 'getentropy': [(0, 1)], 'swab': [(1, 2)], 'bzero': [(0, 1)], 'explicit_bzero': [(0, 1)], 'bcopy': [(1, 2)]}
LIMIT = 90
TOTAL = 500
SMALL = 45

class Fixed:
    def __init__(s, force): s.ok = set(); s.sites = set(); s.force = force; s.bad = []; s.unroll = 0; s.inl = 0; s.opq = 0; s.cheapjoin = 24
    def fixed(s, A, st, b):
        if b is None: return None
        n = A.byid[b].name
        if n[0] not in ('al', 'mem', 'g'): return None
        e = st.ext.get(b)
        return e if e is not None and e.const() and e.c >= 2 else None
    def access(s, A, fr, ins, st, b, off, size, kind):
        if kind != 'w': return
        if b is not None:
            if fr.f.name == 'u_lexer_get_match' and ins.op == 'call': st.mark = st.mark | {('token', b)}
            elif fr.f.name != 'u_lexer_get_match' and ('token', b) in st.mark: st.mark = st.mark - {('token', b)}
        if A.probe: return
        e = s.fixed(A, st, b)
        if e is None: return
        if off.const() and size.const() and 0 <= off.c and off.c + size.c <= e.c:
            if ins.op == 'call': s.sites.add((fr.f.file, ins.line, ins.uid))
            return
        s.sites.add((fr.f.file, ins.line, ins.uid))
        if A.bounded(fr, ins, st, b, off, size): s.ok.add((fr.f.file, ins.line, ins.uid)); return
        nm = A.prog.calleename(ins) if ins.op == 'call' else None
        A.report(fr, ins, st, 'fixed', 'write%s at offset %s of %s byte(s) is not shown to stay inside %s of %s byte(s)' % (' by %s' % nm if nm else '', A.show(off), A.show(size), A.aname(b), A.show(e)))
    def call(s, A, fr, ins, st, name, args):
        if name == 'strlen':
            b, off = A.split(args[0])
            if b is not None and ('token', b) in st.mark and off == L(0):
                # the text of a token that was matched is not empty (the grammar functions: C13)
                out = poly.MODELS['strlen'](A, fr, ins, st, args)
                return [(x, n) for x, n in out if A.addge(x, n + -1)]
            return None
        if name in BOUNDED:
            for p, n in BOUNDED[name]:
                if p < len(args) and n < len(args): A.access(fr, ins, st, args[p], A.norm(st, args[n], 64, False), 'w')
            return None
        if name in ('strchr', 'strrchr', 'strpbrk', 'strstr', 'memchr', 'index', 'rindex'):
            b, off = A.split(args[0])
            if b is None: return None
            k = A.A(('at', fr.ctx, ins.uid), 0, (1 << 62) - 1); e = st.ext.get(b); n = st.copy()
            if name == 'memchr': A.addge(st, A.norm(st, args[2], 64, False) - k + -1)
            elif e is not None:
                A.addge(st, e - off - k + -1)
                for cb, co, cv in st.cont:
                    if cb == b and cv.const() and cv.c == 0 and A.ge0(st, co - off): A.addge(st, co - off - k)
            return [(st, args[0] + k), (n, L(0))]
        if name in ('strcpy', 'stpcpy', '__strcpy_chk'):
            (x, n), = poly.MODELS['strlen'](A, fr, ins, st, [args[1]])
            A.access(fr, ins, x, args[0], n + 1, 'w')
            return A.unknown(fr, ins, x, name, args)
        if name in ('strcat', 'gets', 'strncat'):
            b, off = A.split(args[0])
            if not A.probe and s.fixed(A, st, b) is not None: A.report(fr, ins, st, 'fixed', '%s into a buffer of fixed size' % name)
            return None
        if name in ('sprintf', 'vsprintf'):
            b, off = A.split(args[0])
            if s.fixed(A, st, b) is not None:
                m = longest(fmtof(A, fr, ins)) if name == 'sprintf' else None
                if m is not None: A.access(fr, ins, st, args[0], m + 1, 'w')
                elif not A.probe: A.report(fr, ins, st, 'fixed', '%s of text of any length into a buffer of fixed size' % name)
            return None
        if name is not None and ('scanf' in name) and not A.probe:
            f = fmtof(A, fr, ins, 1 if name in ('sscanf', 'fscanf', '__isoc99_sscanf', '__isoc99_fscanf', '__isoc23_sscanf') else 0)
            if f is None or re.search(r'%[^%*0-9]*(s|\[)', f.replace('%%', '')): A.report(fr, ins, st, 'fixed', '%s of a word of any length' % name)
            else:
                k = 2
                for w in re.findall(r'%(\*?)(\d*)[hlzj]*([a-zA-Z\[])', f.replace('%%', '')):
                    if w[0]: continue
                    if w[2] in 's[' and k < len(args): A.access(fr, ins, st, args[k], int(w[1]) + 1, 'w')
                    k += 1
            return None
        g = A.prog.callee(ins)
        if g is not None and g.decl: g = None
        if g is None or name in A.models: return None
        if (g.file, g.name) in s.force or small(g): s.inl += 1; return None
        for a in args:
            if isinstance(a, L):
                b, off = A.split(a)
                if s.fixed(A, st, b) is not None and (A.byid[b].name[0] != 'al' or arraylike(A, b, fr)): s.inl += 1; return None
        s.opq += 1
        return A.unknown(fr, ins, st, name, args)
    def jkey(s, A, st): return ()

def arraylike(A, b, fr):
    n = A.byid[b].name        # ('al', ctx, uid): the type is found in the function of that frame
    k = n[1].rsplit(':', 1)[-1].split('/')[-1]
    t = ALLOCA.get((k, n[2]))
    return t is None or t.k == 'array'

ALLOCA = {}
_small = {}
def small(g):
    r = _small.get(g)
    if r is None:
        n = sum(len(b.insts) for b in g.blocks.values())
        r = _small[g] = n <= SMALL and not poly.CFG(g).loops
    return r

def fmtof(A, fr, ins, k=1):
    try: v = ins.a[k]
    except IndexError: return None
    return strof(A, fr, v)
def strof(A, fr, v):
    m = A.prog.modules.get(fr.f.module) if hasattr(fr.f, 'module') else None
    while isinstance(v, tuple) and v[0] == 'cgep': v = v[2]
    if not (isinstance(v, tuple) and v[0] == 'g'): return None
    for mod in ([m] if m is not None else A.prog.modules.values()):
        g = mod.globals.get(v[1])
        if g is not None and g.init is not None and g.init[0] in ('cstr', 'cbin'):
            b = g.init[1] if isinstance(g.init[1], bytes) else bytes(g.init[1])
            return b.split(b'\0')[0].decode('latin1')
    return None
def longest(f):
    """how long what a format makes can get, None: no limit"""
    if f is None: return None
    n = 0; i = 0
    W = {'d': 11, 'i': 11, 'u': 10, 'x': 8, 'X': 8, 'o': 11, 'c': 1, 'p': 18}
    for m in re.finditer(r'%([-+ #0]*)(\d*)(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t)?([a-zA-Z%])', f):
        n += m.start() - i; i = m.end()
        w = int(m.group(2) or 0); c = m.group(5)
        if c == '%': k = 1
        elif c == 's':
            if m.group(3) is None or m.group(3) == '*': return None
            k = int(m.group(3))
        elif c in W: k = W[c] + (12 if m.group(4) in ('l', 'll', 'z', 'j', 't') else 0) + len(m.group(1)) + int(m.group(3) or 0 if m.group(3) != '*' else 1 << 20)
        else: return None
        n += max(w, k)
    return n + len(f) - i

WRITERS = re.compile(r'llvm\.mem|^(str|mem|read|recv|fread|fgets|snprintf|vsnprintf|sprintf|u_str|u_snprintf|u_read)')
def garrays(mod):
    return set(n for n, g in mod.globals.items() if not g.const and g.ty.k == 'array')
def mention(v, names):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'g': return v[1] in names
        return any(mention(x, names) for x in v)
    return isinstance(v, list) and any(mention(x, names) for x in v)
def touches(p, f, ga):
    """does the function mention a buffer of fixed size?"""
    struct = writer = False
    for b in f.blocks.values():
        for i in b.insts:
            if i.op == 'alloca':
                if i.aux.k == 'array': return True
                struct = struct or i.aux.k == 'struct'
            elif i.op == 'gep' and i.aux.k == 'struct':
                t = i.aux; 
                for x in i.a[2:]:
                    if t.k == 'array': return True
                    if t.k != 'struct' or x[0] != 'c': break
                    t = t.elems[x[1]]
                    if t.k == 'array': return True
            elif i.op == 'gep' and i.aux.k == 'array': return True
            elif i.op == 'call':
                n = p.calleename(i)
                if n and (WRITERS.search(n) or n in BOUNDED): writer = True
            if ga and any(mention(x, ga) for x in i.a): return True
    return struct and writer

PROG = None
def one(job):
    """one function, from an arbitrary state, in a process of its own"""
    m, n, force, unroll, lim, cap = job
    f = PROG.modules[m].functions[n]
    h = Fixed(force); h.unroll = unroll; A = Poly(PROG, h); t = time.monotonic(); why = 'ok'
    if cap: A.CAP = cap
    def late(*a): raise TimeoutError()
    signal.signal(signal.SIGALRM, late); signal.alarm(max(3, int(min(lim[0], lim[1] - t))))
    try:
        st = poly.St(); args = [A.intatom(('arg', n, i, A.pname(f, i)), t_) for i, (t_, nm, bv) in enumerate(f.params)]
        A.root(f, [st], args)
    except TimeoutError: why = 'late'
    except poly.Enough: why = 'late' if not A.reports else 'ok'
    except AnalysisError as e: why = str(e)[:200]
    finally: signal.alarm(0)
    return dict(f=(m, n), why=why, t=time.monotonic() - t, ok=h.ok, sites=h.sites, inl=h.inl, opq=h.opq, rep=[(v.file, v.line, v.fn, v.cat, v.msg, v.path) for v in A.reports.values() if v.cat == 'fixed'])

def c12(pid, tier):
    global PROG
    r = Result('Abstract interpretation (linear facts, loop invariants) of every function of the library from an arbitrary state. Every store and every bounded library call whose destination is a local array, an array member of a structure or a static array must be shown to stay inside it; helpers that are given such a buffer are interpreted at the call. Unbounded copies into such a buffer are violations.')
    p = PROG = compile_all()
    jobs = []; seen = set(); total = 0; ga = {m: garrays(p.modules[m]) for m in p.modules}
    called = {}; taken = set()
    for f in p.allfns:
        if f.decl: continue
        for b in f.blocks.values():
            for i in b.insts:
                g = p.callee(i) if i.op == 'call' else None
                if g is not None: called.setdefault(g, set()).add(f)
                if i.op == 'alloca': ALLOCA[(f.name, i.uid)] = i.aux
    for m in sorted(p.modules):
        for n in sorted(p.modules[m].functions):
            f = p.modules[m].functions[n]
            if f.decl or not f.blocks or f.file is None: continue
            k = (f.file, f.line, f.name)
            if k in seen: continue
            seen.add(k); total += 1
            if touches(p, f, ga[m]): jobs.append((m, n))
    force = frozenset(); done = {}
    end = time.monotonic() + TOTAL
    def go(js, unroll, cap=0, lim=LIMIT):
        # many functions that take long must not add up
        with ProcessPoolExecutor(8) as P:
            return list(P.map(one, [(m, n, force, unroll, (lim, end), cap) for m, n in js], chunksize=1))
    jobs.sort(key=lambda j: -sum(len(b.insts) for b in p.modules[j[0]].functions[j[1]].blocks.values()))
    for cap, unroll in ((4, 0), (0, 0), (4, 1), (2, 0)):
        # few states kept apart, all of them, the first trip through every loop taken apart
        js = [j for j in jobs if j not in done or done[j]['rep'] or done[j]['why'] != 'ok' and cap]
        for d in go(js, unroll, cap, LIMIT if not unroll else 2 * LIMIT) if js else ():
            if d['f'] not in done or d['why'] == 'ok' and not (done[d['f']]['why'] == 'ok' and d['rep']): done[d['f']] = d
    for rnd in range(3):
        # a helper that is only right for what its callers hand it is judged in its callers
        more = []
        for j in jobs:
            f = p.modules[j[0]].functions[j[1]]
            if done[j]['rep'] and getattr(f, 'internal', False) and any(t.k == 'int' for t, _, _ in f.params) and called.get(f) and (f.file, f.name) not in force: more.append((j, f))
        if not more: break
        force = force | frozenset((f.file, f.name) for j, f in more)
        js = sorted(set((j) for j in jobs if any(p.modules[j[0]].functions[j[1]] in called[f] for _, f in more)))
        for j, f in more: done[j] = dict(done[j], rep=[])
        for d in go(js, 1, 4): done[d['f']] = d
    late = [j for j in jobs if done[j]['why'] != 'ok']
    ok = set(); sites = set()
    for j in jobs:
        d = done[j]; ok |= d['ok']; sites |= d['sites']
        for v in d['rep']: r.add(v[0], v[1], v[2], v[3], v[4], v[5])
    r.cov['functions_in_the_library'] = total; r.count('functions', len(jobs) - len(late)); r.cov['writes_and_calls'] = len(sites); r.cov['proved_variable_positions'] = len(ok)
    r.cov['calls_interpreted'] = sum(d['inl'] for d in done.values()); r.cov['calls_taken_as_arbitrary'] = sum(d['opq'] for d in done.values())
    r.cov['not_finished'] = ['%s in %s (%d s)' % (n, m, done[(m, n)]['t']) for m, n in late]
    r.cov['slowest'] = ['%s %.0f s' % (d['f'][1], d['t']) for d in sorted(done.values(), key=lambda d: -d['t'])[:5]]
    for x in sorted(sites)[:12]: r.sample('%s:%d' % (x[0], x[1]))
    r.need('functions', 20)
    if len(sites) < 15: raise AnalysisError('only %d writes into fixed buffers seen' % len(sites))
    return r
