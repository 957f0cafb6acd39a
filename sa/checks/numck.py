"""Properties decided in the linear-inequality domain (poly.py)."""
import os, re
from ir import compile_all, AnalysisError, sizeof
import poly
from poly import L, Poly
from checks.framework import Result
from checks.util import members

def numeric(fn):
    """when time runs out what was found so far counts; when nothing was found there is no answer"""
    def run(pid, tier):
        try: return fn(pid, tier)
        except poly.Enough:
            r = Result.last; collect(r, Poly.last)
            if not r.viol: raise AnalysisError('no result in %d s' % poly.BUDGET)
            return r
    return run

class Bounds:
    """every access to an object of known extent is inside it"""
    def __init__(s): s.ok = 0; s.unknown = 0; s.sites = set(); s.limit = {}; s.span = {}; s.spans = 0
    def access(s, A, fr, ins, st, b, off, size, kind):
        r = A.bounded(fr, ins, st, b, off, size)
        if A.probe: return
        lim = s.limit.get((b, kind))
        if lim is not None and not A.ge0(st, lim - size): A.report(fr, ins, st, 'bounds', '%s of %s byte(s) in the storage where %s are %s' % ({'r': 'read', 'w': 'write'}[kind], A.show(size), A.show(lim), {'r': 'stored', 'w': 'free'}[kind]))
        sp = s.span.get(b)
        if sp is not None:
            s.spans += 1
            if not (A.ge0(st, off - sp[0]) and A.ge0(st, sp[1] - off - size)): A.report(fr, ins, st, 'bounds', '%s at offset %s of %s byte(s) is not shown to stay inside %s (offsets %s to %s)' % ({'r': 'read', 'w': 'write'}[kind], A.show(off), A.show(size), sp[2], A.show(sp[0]), A.show(sp[1])))
        site = (fr.f.file, ins.line, ins.uid)
        if r is None: s.unknown += 1; return
        s.sites.add(site)
        if r: s.ok += 1
        else:
            what = {'r': 'read', 'w': 'write'}[kind]
            nm = A.prog.calleename(ins) if ins.op == 'call' else None
            A.report(fr, ins, st, 'bounds', '%s%s at offset %s of %s byte(s) is not shown to stay inside %s of %s byte(s)' % (what, ' by %s' % nm if nm else '', A.show(off), A.show(size), A.aname(b), A.show(st.ext[b])))

class Case:
    """an object in an arbitrary reachable state"""
    def __init__(s, st, obj, f): s.st = st; s.obj = obj; s.f = f

def constructor(A, name, args, outk, extra=None):
    """exit states of a constructor that succeeded: [(state, object base atom)]"""
    f = A.prog.functions.get(name)
    if f is None: raise AnalysisError('%s is gone' % name)
    st = poly.St()
    o = A.atom(('out', name), 1 << 12, 1 << 62, ptr=True); st.ext[o] = L(8)
    st.mem[(o, 0)] = (L(0), 8)
    a = []
    for k, (t, nm, bv) in enumerate(f.params):
        if k == outk: a.append(L(0, {o: 1}))
        elif k in args: a.append(args[k](A, st))
        else: a.append(A.intatom(('arg', name, k, A.pname(f, k)), t))
    if extra: extra(A, st)
    out = []
    for x, rv in A.root(f, [st], a):
        if rv is None: continue
        ok = x.copy()
        if not A.assume(ok, poly.Cmp('eq', rv, L(0), 32), True): continue
        c = ok.mem.get((o, 0))
        if c is None: continue
        b, off = A.split(c[0])
        ok.env = {}
        out.append((ok, b if off.const() and off.c == 0 else None, f))
    return out

def pname(s, f, k):
    n = f.params[k][1]
    return f.vnames.get(n, n) if hasattr(f, 'vnames') else n
Poly.pname = pname

def collect(r, A, cats=None):
    for v in A.reports.values():
        if cats is None or v.cat in cats: r.add(v.file, v.line, v.fn, v.cat, v.msg, v.path)

def cover(r, A, h):
    r.cov.update(access_sites=len(h.sites), accesses_proved=h.ok, accesses_to_objects_of_unknown_extent=h.unknown, states=A.stats['states'], calls_interpreted=A.stats['calls'], loops=A.stats['loops'], entailments=A.stats['entailments'])
    for f, l, n in A.headers[:40]: r.sample('%s:%d loop: %d inductive inequalities' % (f, l, n))
    r.assumptions += ['distinct objects do not overlap; buffers passed by the caller have the size the caller states', 'platform functions behave as modelled in sa/poly.py']

def setcell(A, st, obj, off, e, sz=8): st.mem[(obj, off)] = (e, sz)
def cell(A, st, obj, off):
    c = st.mem.get((obj, off))
    return c[0] if c is not None else None

def structsize(mod, name):
    for n, t in mod.types.items():
        if n.split('.')[-1] == name: return sizeof(t)
    raise AnalysisError('struct %s is gone' % name)

def enumerators(mod, prefix):
    out = {}
    for md in mod.meta.values():
        x = re.match(r'!DIEnumerator\(name: "(%s\w*)", value: (-?\d+)' % prefix, md)
        if x: out[x.group(1)] = int(x.group(2))
    return out

def getf(p, name):
    f = p.functions.get(name)
    if f is None: raise AnalysisError('%s is gone' % name)
    return f

# ------------------------------------------------------------------ ring buffer
@numeric
def c17(pid, tier):
    r = Result('Linear-inequality abstract interpretation of the ring buffer: from every way the constructor can succeed, the counters are generalised to any values satisfying the object invariant; every public operation is interpreted on that state with its helpers and callbacks; every copy must be shown inside the storage and inside the caller\'s buffer, and every exit must restore the invariant and account for exactly the bytes returned.')
    p = compile_all(); h = Bounds(); A = Poly(p, h)
    mod = p.modules['rb']; M = members(mod, 'u_rb_s')
    for k in ('base', 'sz', 'wr_off', 'rd_off', 'ready'):
        if k not in M: raise AnalysisError('u_rb_s.%s is gone' % k)
    cs = constructor(A, 'u_rb_create', {}, 2)
    kinds = {}
    for st, obj, f in cs:
        if obj is None: r.add('srcs/toolbox/rb.c', f.line, f.name, 'invariant', 'the constructor succeeds without storing the object'); continue
        base = cell(A, st, obj, M['base']); sz = cell(A, st, obj, M['sz'])
        b, off = A.split(base) if base is not None else (None, None)
        if b is None or sz is None or st.ext.get(b) is None:
            r.add('srcs/toolbox/rb.c', f.line, f.name, 'invariant', 'the constructor succeeds with unknown storage'); continue
        ext = st.ext[b]
        if not A.ge0(st, sz + -1): r.add('srcs/toolbox/rb.c', f.line, f.name, 'invariant', 'the constructor can succeed with a capacity of zero', poly.lines(st.trace)); continue
        double = A.ge0(st, ext - off - sz.mul(2)); single = A.ge0(st, ext - off - sz)
        if not single: r.add('srcs/toolbox/rb.c', f.line, f.name, 'invariant', 'the constructor can succeed with storage smaller than the capacity', poly.lines(st.trace)); continue
        for k in ('wr_off', 'rd_off', 'ready'):
            c = cell(A, st, obj, M[k])
            if c is None and ('zero', obj) in st.mark: c = L(0)
            if c is None or not A.eq0(st, c): r.add('srcs/toolbox/rb.c', f.line, f.name, 'invariant', 'the constructor leaves %s not zero' % k, poly.lines(st.trace))
        # mirrored storage is what the callbacks of that storage are for
        cb = {k: cell(A, st, obj, M[k]) for k in M if k.startswith('cb_')}
        nm = {k: (A.info(v.one()).fn if v is not None and v.one() is not None else None) for k, v in cb.items()}
        key = (double, tuple(sorted((k, v.name if v is not None and hasattr(v, 'name') else str(v)) for k, v in nm.items())))
        kinds.setdefault(key, []).append((st, obj, b, off, sz, ext))
    r.count('constructor_exits', len(cs)); r.count('kinds_of_buffer', len(kinds))
    ops = 0
    for key, L_ in sorted(kinds.items(), key=repr):
        double = key[0]
        for st0, obj, b, off, sz, ext in L_:
            A.fixed |= set(sz.t) | set(ext.t) | set(off.t)
            def general():
                """any reachable counters"""
                out = []
                for wrapped in ((False,) if double else (False, True)):
                    st = st0.copy(); st.trace = None
                    rd = A.A(('rd_off',), 0, 1 << 62); rdy = A.A(('ready',), 0, 1 << 62); A.fixed |= set(rd.t) | set(rdy.t)
                    wr = rd + rdy if not wrapped else rd + rdy - sz
                    ok = A.addge(st, sz - rd + -1) and A.addge(st, sz - rdy) and A.addge(st, -sz + (1 << 61))
                    if not double: ok = ok and A.addge(st, wr) and A.addge(st, sz - wr + -1)
                    if not ok: continue
                    setcell(A, st, obj, M['rd_off'], rd); setcell(A, st, obj, M['ready'], rdy); setcell(A, st, obj, M['wr_off'], wr)
                    out.append((st, rd, wr, rdy))
                return out
            def inv(x):
                rd = cell(A, x, obj, M['rd_off']); wr = cell(A, x, obj, M['wr_off']); rdy = cell(A, x, obj, M['ready'])
                if None in (rd, wr, rdy): return 'a counter is lost'
                for what, e in (('rd_off >= 0', rd), ('rd_off < capacity', sz - rd + -1), ('ready >= 0', rdy), ('ready <= capacity', sz - rdy)):
                    if not A.ge0(x, e): return 'not %s: %s' % (what, A.show(e))
                if double:
                    return None if A.eq0(x, rd + rdy - wr) else 'the write offset is not the read offset plus the bytes stored'
                if not (A.ge0(x, wr) and A.ge0(x, sz - wr + -1)): return 'the write offset leaves the storage'
                if A.eq0(x, rd + rdy - wr) or A.eq0(x, rd + rdy - sz - wr): return None
                # told apart by whether the sum passes the end
                for y, ok in ((x.copy(), lambda y: A.addge(y, sz - rd - rdy + -1)), (x.copy(), lambda y: A.addge(y, rd + rdy - sz))):
                    if ok(y) and not (A.eq0(y, rd + rdy - wr) or A.eq0(y, rd + rdy - sz - wr)): return 'the write offset is not the read offset plus the bytes stored, reduced to the storage'
                return None
            for name in ('u_rb_read', 'u_rb_write', 'u_rb_fast_read', 'u_rb_clear', 'u_rb_avail', 'u_rb_ready', 'u_rb_size'):
                f = getf(p, name)
                for st, rd, wr, rdy in general():
                    if name in ('u_rb_read', 'u_rb_write'):
                        n = A.A(('b_sz',), 0, (1 << 62) - 1); A.fixed |= set(n.t); u = A.atom(('caller buffer',), 1 << 12, 1 << 62, ptr=True); st.ext[u] = n
                        args = [L(0, {obj: 1}), L(0, {u: 1}), n]
                    elif name == 'u_rb_fast_read':
                        n = A.A(('b_sz',), 0, (1 << 62) - 1); A.fixed |= set(n.t); u = A.atom(('size cell',), 1 << 12, 1 << 62, ptr=True); st.ext[u] = L(8); st.mem[(u, 0)] = (n, 8)
                        args = [L(0, {obj: 1}), L(0, {u: 1})]
                    else: args = [L(0, {obj: 1})]
                    h.limit = {(b, 'r'): rdy, (b, 'w'): sz - rdy} if name in ('u_rb_read', 'u_rb_write') else {}
                    res = A.root(f, [st], args)
                    if not res: raise AnalysisError('%s never returns' % name)
                    ops += 1
                    for x, rv in res:
                        tr = poly.lines(x.trace)
                        def bad(msg): r.add(f.file, f.line, f.name, 'counters', msg + ' (%s storage)' % ('mirrored' if double else 'plain'), tr)
                        w = inv(x)
                        if w: bad(w); continue
                        rdy2 = cell(A, x, obj, M['ready']); rd2 = cell(A, x, obj, M['rd_off']); wr2 = cell(A, x, obj, M['wr_off'])
                        if name in ('u_rb_read', 'u_rb_write'):
                            sg = 1 if name == 'u_rb_write' else -1
                            ok = x.copy(); neg = x.copy()
                            if A.addge(ok, rv):
                                if not A.eq0(ok, rdy2 - rdy - rv.mul(sg)): bad('the bytes stored change by %s where %s is returned' % (A.show(rdy2 - rdy), A.show(rv)))
                                if not A.ge0(ok, n - rv): bad('more bytes are reported than were asked for')
                            if A.addge(neg, -rv + -1) and not (A.eq0(neg, rdy2 - rdy) and A.eq0(neg, rd2 - rd) and A.eq0(neg, wr2 - wr)): bad('a refused operation moves a counter')
                            # the other side's offset stays (modulo the capacity)
                            o1, o2 = (rd, rd2) if sg == 1 else (wr, wr2)
                            if not (A.eq0(x, o1 - o2) or A.eq0(x, o1 - o2 - sz) or A.eq0(x, o2 - o1 - sz)): bad('the offset of the other side moves')
                        elif name == 'u_rb_fast_read':
                            n2 = cell(A, x, u, 0)
                            nn = x.copy()
                            if n2 is None: bad('the number of bytes read is lost'); continue
                            if rv.const() and rv.c == 0:
                                if not A.eq0(x, rdy2 - rdy): bad('a refused read consumes data')
                            else:
                                pb, po = A.split(rv)
                                if pb != b or not A.eq0(x, po - off - rd): bad('the address returned is not the read position')
                                if not A.eq0(x, rdy - rdy2 - n2): bad('the bytes consumed are not the bytes reported')
                                if not A.ge0(x, ext - po - n2): bad('the block returned leaves the storage')
                                if not A.ge0(x, n - n2): bad('more bytes are reported than were asked for')
                        elif name == 'u_rb_clear':
                            if not (A.eq0(x, rdy2) and A.eq0(x, rd2) and A.eq0(x, wr2)): bad('clearing leaves a counter set')
                        elif name == 'u_rb_avail':
                            if not A.eq0(x, rv - sz + rdy): bad('the free space reported plus the bytes stored is not the capacity')
                        elif name == 'u_rb_ready':
                            if not A.eq0(x, rv - rdy): bad('the bytes reported as stored are not the bytes stored')
                        elif name == 'u_rb_size':
                            if not A.eq0(x, rv - sz): bad('the size reported is not the capacity')
    r.count('operations_interpreted', ops)
    collect(r, A, ('bounds',)); cover(r, A, h)
    r.need('kinds_of_buffer', 2); r.need('operations_interpreted', 14); r.need('access_sites', 8)
    return r

# ------------------------------------------------------------------ priority queue
@numeric
def c30(pid, tier):
    r = Result('Linear-inequality abstract interpretation of the priority queue: the constructor must leave room for one more item than the capacity; the element count is generalised to any value up to the capacity, every public operation is interpreted on that state with its helpers (heap walks by inductive loop inequalities), each access to the items must lie between position one and the last element (one further when pushing) and each exit must account for the elements.')
    p = compile_all(); h = Bounds(); A = Poly(p, h)
    mod = p.modules['pqueue']; M = members(mod, 'u_pq_s')
    isz = structsize(mod, 'u_pq_item_s')
    F = 'srcs/toolbox/pqueue.c'; ops = 0
    cs = constructor(A, 'u_pq_create', {}, 1)
    r.count('constructor_exits', len(cs))
    for st0, obj, f in cs:
        tr = poly.lines(st0.trace)
        if obj is None: r.add(F, f.line, f.name, 'invariant', 'the constructor succeeds without storing the object'); continue
        q = cell(A, st0, obj, M['q']); ni = cell(A, st0, obj, M['nitems']); ne = cell(A, st0, obj, M['nelems'])
        b, off = A.split(q) if q is not None else (None, None)
        if ne is None and ('zero', obj) in st0.mark: ne = L(0)
        if b is None or ni is None or ne is None or st0.ext.get(b) is None: r.add(F, f.line, f.name, 'invariant', 'the constructor succeeds with unknown storage or counters', tr); continue
        ext = st0.ext[b]
        if not A.eq0(st0, ne): r.add(F, f.line, f.name, 'invariant', 'a new queue is not empty', tr); continue
        if not A.ge0(st0, ext - off - ni.mul(isz) + -isz): r.add(F, f.line, f.name, 'invariant', 'the storage of a new queue does not hold one item more than the capacity', tr); continue
        if not A.ge0(st0, ni + -1): r.add(F, f.line, f.name, 'invariant', 'a new queue can have no capacity', tr); continue
        A.fixed |= set(ni.t) | set(ext.t)
        for name in ('u_pq_push', 'u_pq_delmax', 'u_pq_peekmax', 'u_pq_empty', 'u_pq_full'):
            f = getf(p, name)
            st = st0.copy(); st.trace = None
            n = A.A(('nelems',), 0, 1 << 62); A.fixed |= set(n.t)
            if not A.addge(st, ni - n): continue
            if name == 'u_pq_peekmax' and not A.addge(st, n + -1): continue        # documented: the queue must not be empty
            setcell(A, st, obj, M['nelems'], n)
            st.mark = st.mark - {('zero', b), ('zero', obj)} | {('w', b)}
            args = [L(0, {obj: 1})]
            for k, (t, nm, bv) in list(enumerate(f.params))[1:]:
                if name != 'u_pq_push' and t.k == 'ptr':
                    u = A.atom(('key cell',), 1 << 12, 1 << 62, ptr=True); st.ext[u] = L(8); args.append(L(0, {u: 1}))
                else: args.append(A.intatom(('arg', name, k), t))
            h.span = {b: (off + isz, off + (n + (2 if name == 'u_pq_push' else 1)).mul(isz), 'positions 1 to %s' % ('the next free one' if name == 'u_pq_push' else 'the last element'))}
            full = [A.ge0(st, n - ni)]
            res = A.root(f, [st], args); ops += 1
            if not res: raise AnalysisError('%s never returns' % name)
            for x, rv in res:
                tr = poly.lines(x.trace)
                def bad(msg): r.add(f.file, f.line, f.name, 'counters', msg, tr)
                n2 = cell(A, x, obj, M['nelems']); ni2 = cell(A, x, obj, M['nitems']); q2 = cell(A, x, obj, M['q'])
                if n2 is None or ni2 is None or q2 is None: bad('a counter is lost'); continue
                if not A.eq0(x, ni2 - ni) or q2 != q: bad('the capacity or the storage changes'); continue
                if name == 'u_pq_push':
                    ok = A.assume(x.copy(), poly.Cmp('eq', rv, L(0), 32), True)
                    for y in ok:
                        if not A.eq0(y, n2 - n + -1): bad('a successful push does not add one element (%s)' % A.show(n2 - n))
                        if not A.ge0(y, ni - n2): bad('a push can succeed on a full queue')
                    for y in A.assume(x.copy(), poly.Cmp('ne', rv, L(0), 32), True):
                        if not A.eq0(y, n2 - n): bad('a refused push changes the number of elements')
                elif name == 'u_pq_delmax':
                    y = x.copy()
                    if A.addge(y, n + -1) and not A.eq0(y, n - n2 + -1): bad('popping does not remove exactly one element')
                    y = x.copy()
                    if A.addeq(y, n):
                        if not A.eq0(y, n2): bad('popping an empty queue changes the number of elements')
                        if not A.eq0(y, rv): bad('popping an empty queue returns something')
                else:
                    if not A.eq0(x, n2 - n): bad('a query changes the number of elements')
                    if name in ('u_pq_empty', 'u_pq_full'):
                        want = n if name == 'u_pq_empty' else ni - n
                        for val in (True, False):
                            for y in A.assume(x.copy(), poly.Cmp('ne' if val else 'eq', rv, L(0), 32), True):
                                y2 = y.copy()
                                if val and not A.eq0(y, want): bad('it reports true where it is false')
                                if not val and A.addeq(y2, want): bad('it reports false where it is true')
    r.count('operations_interpreted', ops); r.count('item_accesses', h.spans)
    collect(r, A, ('bounds',)); cover(r, A, h)
    r.need('operations_interpreted', 5); r.need('item_accesses', 5)
    return r

# ------------------------------------------------------------------ dynamic array
class Slots(Bounds):
    """accesses to the storage of an array: the selected slot and nothing else"""
    def __init__(s): Bounds.__init__(s); s.st = None; s.hit = set()
    def access(s, A, fr, ins, st, b, off, size, kind):
        Bounds.access(s, A, fr, ins, st, b, off, size, kind)
        if A.probe or s.st is None or b is None: return
        c = st.mem.get((s.obj, s.M['base']))
        cb = A.split(c[0])[0] if c is not None else None
        if b != cb: return
        s.spans += 1
        if fr.depth and ins.op == 'call': return       # growing the array
        d = off - s.idx.mul(s.esz)
        if not (A.ge0(st, d) and A.ge0(st, -(d + size) + s.esz)):
            A.report(fr, ins, st, 'slot', '%s at offset %s of %s byte(s) is not inside the selected slot (elements of %d byte(s))' % ({'r': 'read', 'w': 'write'}[kind], A.show(off), A.show(size), s.esz))
        elif size.const() and d.const() and d.c + size.c == s.esz: s.hit.add(kind)

@numeric
def c14(pid, tier):
    r = Result('Linear-inequality abstract interpretation of the typed array, once per declared element type: the constructor must store that type, at least one slot and storage of exactly slots times element size; the number of slots is generalised, every getter and setter is interpreted on that state for any index; each access to the storage must fall in the selected slot and inside the storage, span exactly one element, and each exit must restore the invariant; an accessor must succeed for exactly one type, the same for the getter and the setter of a pair, and every type must have a pair.')
    p = compile_all(); h = Slots(); A = Poly(p, h)
    mod = p.modules['array']; M = members(mod, 'u_array_s'); h.M = M
    F = 'srcs/toolbox/array.c'
    en = enumerators(mod, 'U_ARRAY_TYPE_')
    types = {}
    for n, v in sorted(en.items()):
        if n not in ('U_ARRAY_TYPE_UNSET', 'U_ARRAY_TYPE_MAX'): types[v] = n
    if not types: raise AnalysisError('the element types are gone')
    create = getf(p, 'u_array_create')
    acc = sorted(n for n, f in p.functions.items() if not f.decl and re.match(r'u_array_[sg]et_\w+$', n))
    r.count('element_types', len(types)); r.count('accessors', len(acc))
    # kinds outside the enumeration are refused
    for lo, hi in ((-(1 << 31), 0), (max(types) + 1, (1 << 31) - 1)):
        t = A.A(('kind', lo), lo, hi)
        for st, obj, f in constructor(A, 'u_array_create', {0: lambda A, st: t}, 2):
            r.add(F, f.line, f.name, 'type', 'an array can be created with a type outside the enumeration', poly.lines(st.trace))
    serves = {}; ops = 0
    for T, tn in sorted(types.items()):
        esz = None
        for st, obj, f in constructor(A, 'u_array_create', {0: lambda A, st: L(T)}, 2):
            tr = poly.lines(st.trace)
            if obj is None: r.add(F, f.line, f.name, 'invariant', 'the constructor succeeds without storing the object'); continue
            base = cell(A, st, obj, M['base']); ns = cell(A, st, obj, M['nslots']); ty = cell(A, st, obj, M['type'])
            b, off = A.split(base) if base is not None else (None, None)
            ext = st.ext.get(b) if b is not None else None
            if ext is None or ns is None or off != L(0): r.add(F, f.line, f.name, 'invariant', 'the constructor succeeds with unknown storage or number of slots (%s)' % tn, tr); continue
            if ty is None or not A.eq0(st, ty + -T): r.add(F, f.line, f.name, 'invariant', 'the array does not record its type %s' % tn, tr)
            if not A.ge0(st, ns + -1): r.add(F, f.line, f.name, 'invariant', 'an array of %s can have no slots' % tn, tr)
            e = None
            for k in (esz,) if esz else (1, 2, 4, 8, 12, 16, 24, 32, 64):
                if A.eq0(st, ext - ns.mul(k)): e = k
            if e is None: r.add(F, f.line, f.name, 'invariant', 'the storage of an array of %s (%s bytes) is not a fixed element size times its slots (%s)' % (tn, A.show(ext), A.show(ns)), tr)
            else: esz = e
        if esz is None: continue
        r.sample('%s: elements of %d byte(s)' % (tn, esz))
        for name in acc + ['u_array_resize']:
            f = p.functions[name]
            st = poly.St()
            obj = A.atom(('array', T), 1 << 12, 1 << 62, ptr=True); st.ext[obj] = L(structsize(mod, 'u_array_s'))
            b = A.atom(('storage', T), 1 << 12, 1 << 62, ptr=True)
            N = A.A(('nslots', T), 1, 1 << 62); idx = A.A(('idx',), 0, (1 << 64) - 1); A.fixed |= set(N.t) | set(idx.t)
            st.ext[b] = N.mul(esz); A.addge(st, -N.mul(esz) + ((1 << 62) - 1))
            setcell(A, st, obj, M['base'], L(0, {b: 1})); setcell(A, st, obj, M['nslots'], N); setcell(A, st, obj, M['type'], L(T), 4)
            args = [L(0, {obj: 1}), idx]; rcp = None
            for k, (t, nm, bv) in list(enumerate(f.params))[2:]:
                if t.k == 'ptr':
                    u = A.atom(('out', name, k), 1 << 12, 1 << 62, ptr=True); args.append(L(0, {u: 1})); rcp = u
                else: args.append(A.intatom(('v', name, k), t))
            h.st = st; h.obj = obj; h.idx = idx; h.esz = esz; h.hit = set()
            if name == 'u_array_resize': h.st = None
            res = A.root(f, [st], args); ops += 1
            if not res: raise AnalysisError('%s never returns' % name)
            good = False
            for x, rv in res:
                tr = poly.lines(x.trace)
                c = cell(A, x, obj, M['base']); n2 = cell(A, x, obj, M['nslots']); t2 = cell(A, x, obj, M['type'])
                cb, co = A.split(c) if c is not None else (None, None)
                if None in (c, n2, t2, cb) or x.ext.get(cb) is None: r.add(F, f.line, name, 'invariant', 'the storage or its size is lost (%s)' % tn, tr); continue
                if not A.eq0(x, t2 + -T): r.add(F, f.line, name, 'invariant', 'the type of the array changes', tr)
                if cb in x.freed: r.add(F, f.line, name, 'invariant', 'the array is left with released storage', tr)
                if not A.eq0(x, x.ext[cb] - n2.mul(esz)) or not A.ge0(x, n2 + -1): r.add(F, f.line, name, 'invariant', 'the storage (%s bytes) is not %d times the recorded slots (%s)' % (A.show(x.ext[cb]), esz, A.show(n2)), tr)
                if rv.one() is not None and A.info(rv.one()).ptr or f.ret.k == 'ptr':
                    v = x.mem.get((rcp, 0)); ok = v is not None and A.eq0(x, v[0])
                else: ok = bool(A.assume(x.copy(), poly.Cmp('eq', rv, L(0), 32), True))
                if ok:
                    good = True
                    if name == 'u_array_resize' and not A.ge0(x, n2 - idx + -1): r.add(F, f.line, name, 'invariant', 'growing succeeds but leaves no slot for the index asked for (%s slots)' % A.show(n2), tr)
            if name == 'u_array_resize': continue
            if good:
                serves.setdefault(name, []).append(T)
                need = 'w' if '_set_' in name else 'r'
                if need not in h.hit: r.add(F, f.line, name, 'slot', 'it succeeds on an array of %s without %s a whole element of %d byte(s)' % (tn, {'w': 'storing', 'r': 'reading'}[need], esz))
    pairs = {}
    for n in acc:
        f = p.functions[n]; s_ = serves.get(n, [])
        if len(s_) != 1: r.add(F, f.line, n, 'type', 'it succeeds on arrays of %d types (%s), not on exactly one' % (len(s_), ', '.join(types[t] for t in s_)))
        else: pairs.setdefault(n.split('et_', 1)[1], {})[n.split('et_', 1)[0][-1]] = s_[0]
    for k, d in sorted(pairs.items()):
        if 's' in d and 'g' in d and d['s'] != d['g']: r.add(F, p.functions['u_array_set_' + k].line, 'u_array_set_' + k, 'type', 'the getter and the setter for %s work on different types' % k)
        for v in set(d.values()):
            if types[v] != 'U_ARRAY_TYPE_' + k.upper(): r.add(F, p.functions['u_array_' + ('set_' if 's' in d else 'get_') + k].line, 'u_array_*_' + k, 'type', 'it works on arrays of %s' % types[v])
    for T, tn in types.items():
        if not any(d.get('s') == T and d.get('g') == T for d in pairs.values()): r.add(F, create.line, tn, 'type', 'no pair of accessors works on arrays of %s' % tn)
    r.count('operations_interpreted', ops); r.count('storage_accesses', h.spans)
    collect(r, A, ('bounds', 'slot')); cover(r, A, h)
    r.need('element_types', 10); r.need('operations_interpreted', 100); r.need('storage_accesses', 20)
    return r

# ------------------------------------------------------------------ strings and buffers
def nul_at(A, st, b, pos): return any(cb == b and cv.const() and cv.c == 0 and A.eq0(st, co - pos) for cb, co, cv in st.cont)

class Text(Bounds):
    """as Bounds; besides, text handed to strlen is known to be terminated"""
    def call(s, A, fr, ins, st, name, args):
        if name == 'strlen' and not A.probe:
            b, off = A.split(args[0])
            if b is not None and st.ext.get(b) is not None:
                s.spans += 1
                if not any(cb == b and cv.const() and cv.c == 0 and A.ge0(st, co - off) for cb, co, cv in st.cont): A.report(fr, ins, st, 'bounds', 'the length of text without a known terminator is taken')
        return None

@numeric
def c18(pid, tier):
    r = Result('Linear-inequality abstract interpretation of the string and buffer modules with facts about the position of terminators: from every state a constructor leaves, generalised to any length and capacity allowed by the object invariant (storage larger than the capacity, length below the capacity with a NUL at that position, or the shared empty text), every public operation is interpreted for any argument; every store and every library call that stores must stay in the storage, and every exit - success or failure - must restore the invariant.')
    p = compile_all(); h = Text(); A = Poly(p, h); ops = 0
    # ---- strings
    mod = p.modules['str']; M = members(mod, 'u_string_s'); F = 'srcs/toolbox/str.c'; sz_o = structsize(mod, 'u_string_s')
    null = []
    def strinv(st, obj):
        """which form of the invariant holds; None when neither does"""
        d = cell(A, st, obj, M['data']); n = cell(A, st, obj, M['data_sz']); l = cell(A, st, obj, M['data_len'])
        if None in (d, n, l): return None, 'a member of the string is lost'
        b, off = A.split(d)
        if b is None or off != L(0): return None, 'the text does not start at the storage'
        if b in st.freed: return None, 'the storage was released'
        nm = A.info(b).name
        if nm[0] in ('g', 'm') or nm[0] == 'cellp' and A.eq0(st, n):
            if not (A.eq0(st, n) and A.eq0(st, l)): return None, 'the shared empty text is given a length or a capacity'
            if not nul_at(A, st, b, L(0)): return None, 'the shared empty text is overwritten'
            return 'empty', None
        e = st.ext.get(b)
        if e is None: return None, 'the storage has an unknown size'
        if not A.ge0(st, e - n): return None, 'the capacity recorded (%s) is not shown to be within the storage (%s bytes)' % (A.show(n), A.show(e))
        if not A.ge0(st, n - l + -1): return None, 'the length (%s) is not shown to be below the capacity (%s)' % (A.show(l), A.show(n))
        if not nul_at(A, st, b, l): return None, 'no terminator is known to be at the recorded length (%s)' % A.show(l)
        for cb, co, cv in st.cont:
            if cb == b and cv == L(0) and not A.ge0(st, co - l): return None, 'a terminator at %s is not shown to be at or after the recorded length (%s)' % (A.show(co), A.show(l))
        return 'text', None
    def empty_text(A, st):
        # the shared empty text holds a NUL (kept by every operation)
        for g in mod.globals.values():
            if g.ty is not None and g.ty.k == 'array' and g.internal and not g.decl and not g.const and g.init is not None and g.init[0] == 'zero':
                b, o = A.split(A.gaddr2(mod, g.name, st)); st.cont = st.cont | {(b, L(0), L(0))}
    f = getf(p, 'u_string_create')
    empty = None; made = 0
    for withbuf in (False, True):
        n = A.A(('len',), 0, (1 << 61)); A.fixed |= set(n.t)
        def bufarg(A, st):
            if not withbuf: return L(0)
            u = A.atom(('obj', 'buf'), 1 << 12, 1 << 62, ptr=True); st.ext[u] = n; return L(0, {u: 1})
        for st, obj, f in constructor(A, 'u_string_create', {0: bufarg, 1: lambda A, st: n}, 2, empty_text):
            tr = poly.lines(st.trace); made += 1
            if obj is None: r.add(F, f.line, f.name, 'invariant', 'the constructor succeeds without storing the object'); continue
            kind, why = strinv(st, obj)
            if kind is None: r.add(F, f.line, f.name, 'invariant', 'a new string: ' + why, tr)
            elif kind == 'empty' and not withbuf: empty = (st, obj)
    if empty is None and not r.viol: raise AnalysisError('no empty string is ever created')
    r.count('constructor_exits', made)
    def text(st, tag):
        """any string with storage"""
        obj = A.atom(('obj', 'string', tag), 1 << 12, 1 << 62, ptr=True); st.ext[obj] = L(sz_o)
        b = A.atom(('obj', 'text', tag), 1 << 12, 1 << 62, ptr=True)
        e = A.A(('ext', tag), 1, (1 << 62) - 1); n = A.A(('data_sz', tag), 1, 1 << 62); l = A.A(('data_len', tag), 0, 1 << 62); A.fixed |= set(e.t) | set(n.t) | set(l.t)
        st.ext[b] = e
        # the storage holds the capacity and one byte more
        A.addge(st, e - n + -1); A.addge(st, n - l + -1)
        setcell(A, st, obj, M['data'], L(0, {b: 1})); setcell(A, st, obj, M['data_sz'], n); setcell(A, st, obj, M['data_len'], l)
        st.cont = st.cont | {(b, l, L(0))}
        return obj
    def bare(st, tag):
        obj = A.atom(('obj', 'string', tag), 1 << 12, 1 << 62, ptr=True); st.ext[obj] = L(sz_o)
        es, eo = empty
        for k in ('data', 'data_sz', 'data_len'): setcell(A, st, obj, M[k], cell(A, es, eo, M[k]))
        b, o = A.split(cell(A, es, eo, M['data'])); st.ext.update({b: es.ext[b]} if b in es.ext else {}); st.cont = st.cont | {(b, L(0), L(0))}
        return obj
    pub = [f for f in mod.functions.values() if not f.decl and not f.internal and f.name not in ('u_string_create', 'u_string_free', 'u_string_detach_cstr')]
    for f in sorted(pub, key=lambda f: f.name):
        if not f.params or f.params[0][0].k != 'ptr': continue
        two = f.name == 'u_string_copy'
        for kind in ('text', 'bare'):
            for kind2 in (('text', 'bare') if two else (None,)):
                if empty is None: continue
                st = poly.St()
                obj = (text if kind == 'text' else bare)(st, 'a'); objs = [obj]; args = [L(0, {obj: 1})]
                if two: o2 = (text if kind2 == 'text' else bare)(st, 'b'); objs.append(o2); args.append(L(0, {o2: 1}))
                ln = A.A(('len',), 0, 1 << 61); A.fixed |= set(ln.t)
                for k, (t, nm, bv) in list(enumerate(f.params))[len(args):]:
                    if t.k == 'ptr' and k + 1 < len(f.params) and f.params[k + 1][0].k == 'int':
                        u = A.atom(('obj', 'buf'), 1 << 12, 1 << 62, ptr=True); st.ext[u] = ln; args.append(L(0, {u: 1}))
                    elif t.k == 'int' and k and f.params[k - 1][0].k == 'ptr' and k > 1: args.append(ln)
                    else: args.append(A.intatom(('arg', f.name, k), t))
                res = A.root(f, [st], args); ops += 1
                if not res: raise AnalysisError('%s never returns' % f.name)
                for x, rv in res:
                    for o in objs:
                        k, why = strinv(x, o)
                        if k is None: r.add(F, f.line, f.name, 'invariant', why + ' (called on %s)' % {'text': 'a string with storage', 'bare': 'an empty string'}[kind], poly.lines(x.trace)); continue
                        if k != 'text' or o is not objs[0] or kind != 'text': continue
                        b2 = A.split(cell(A, x, o, M['data']))[0]
                        if A.info(b2).name == ('obj', 'text', 'a') and ('w', b2) not in x.mark and not A.ge0(x, A.A(('data_len', 'a'), 0, 1 << 62) - cell(A, x, o, M['data_len'])): r.add(F, f.line, f.name, 'invariant', 'the length grows without anything being stored', poly.lines(x.trace))
    # ---- buffers
    mod = p.modules['buf']; M2 = members(mod, 'u_buf_s'); F = 'srcs/toolbox/buf.c'; sz2 = structsize(mod, 'u_buf_s')
    def bufinv(st, obj):
        d = cell(A, st, obj, M2['data']); n = cell(A, st, obj, M2['size']); l = cell(A, st, obj, M2['len'])
        if None in (d, n, l): return None, 'a member of the buffer is lost'
        b, off = A.split(d)
        if b is None:
            if not A.eq0(st, d): return None, 'the storage is unknown'
            if not (A.eq0(st, n) and A.eq0(st, l)): return None, 'a buffer without storage is given a length or a capacity'
            return 'none', None
        if off != L(0): return None, 'the data does not start at the storage'
        if b in st.freed: return None, 'the storage was released'
        e = st.ext.get(b)
        if e is None: return None, 'the storage has an unknown size'
        if not A.ge0(st, e - n + -1): return None, 'the storage (%s bytes) is not shown to hold the capacity (%s) and a terminator' % (A.show(e), A.show(n))
        if not A.ge0(st, n - l): return None, 'the length (%s) is not shown to be within the capacity (%s)' % (A.show(l), A.show(n))
        if not nul_at(A, st, b, n): return None, 'no terminator is known to be at the end of the storage'
        return 'data', None
    for st, obj, f in constructor(A, 'u_buf_create', {}, 0):
        made += 1
        k, why = bufinv(st, obj) if obj is not None else (None, 'the constructor succeeds without storing the object')
        if k is None: r.add(F, f.line, f.name, 'invariant', 'a new buffer: ' + why, poly.lines(st.trace))
    pub = [f for f in mod.functions.values() if not f.decl and not f.internal and f.name not in ('u_buf_create', 'u_buf_free')]
    for f in sorted(pub, key=lambda f: f.name):
        if not f.params or f.params[0][0].k != 'ptr': continue
        for kind in ('terminated', 'data', 'none'):
            st = poly.St()
            obj = A.atom(('obj', 'buffer'), 1 << 12, 1 << 62, ptr=True); st.ext[obj] = L(sz2); b = None; l = L(0)
            if kind == 'none':
                for k in ('data', 'size', 'len'): setcell(A, st, obj, M2[k], L(0))
            else:
                b = A.atom(('obj', 'storage'), 1 << 12, 1 << 62, ptr=True)
                e = A.A(('ext', 'b'), 1, (1 << 62) - 1); n = A.A(('size', 'b'), 0, 1 << 62); l = A.A(('len', 'b'), 0, 1 << 62); A.fixed |= set(e.t) | set(n.t) | set(l.t)
                st.ext[b] = e; A.addge(st, e - n + -1); A.addge(st, n - l)
                setcell(A, st, obj, M2['data'], L(0, {b: 1})); setcell(A, st, obj, M2['size'], n); setcell(A, st, obj, M2['len'], l)
                st.cont = frozenset({(b, n, L(0))} | ({(b, l, L(0))} if kind == 'terminated' else set()))
            ln = A.A(('len',), 0, 1 << 61); A.fixed |= set(ln.t); args = [L(0, {obj: 1})]
            for k, (t, nm, bv) in list(enumerate(f.params))[1:]:
                if t.k == 'ptr' and k + 1 < len(f.params) and f.params[k + 1][0].k == 'int':
                    u = A.atom(('obj', 'src'), 1 << 12, 1 << 62, ptr=True); st.ext[u] = ln; args.append(L(0, {u: 1}))
                elif t.k == 'int' and k > 1 and f.params[k - 1][0].k == 'ptr': args.append(ln)
                else: args.append(A.intatom(('arg', f.name, k), t))
            res = A.root(f, [st], args); ops += 1
            if not res: raise AnalysisError('%s never returns' % f.name)
            for x, rv in res:
                tr = poly.lines(x.trace)
                k2, why = bufinv(x, obj)
                if k2 is None: r.add(F, f.line, f.name, 'invariant', why + ' (called on a buffer %s)' % {'none': 'without storage'}.get(kind, 'with storage'), tr); continue
                if k2 != 'data': continue
                b2, o2 = A.split(cell(A, x, obj, M2['data'])); l2 = cell(A, x, obj, M2['len'])
                stored = b2 != b or ('w', b2) in x.mark
                if not stored and not A.ge0(x, l - l2): r.add(F, f.line, f.name, 'invariant', 'the length grows without anything being stored', tr)
                okst = A.assume(x.copy(), poly.Cmp('eq', rv, L(0), 32), True) if f.ret.k == 'int' and f.ret.w == 32 else []
                if kind in ('terminated', 'none') and stored and A.eq0(x, l2 - l) and not okst and not nul_at(A, x, b2, l2) and not (b is None): r.add(F, f.line, f.name, 'invariant', 'the terminator after the data is lost on failure', tr)
                if okst and stored and f.name != 'u_buf_reserve' and not nul_at(A, x, b2, l2): r.add(F, f.line, f.name, 'invariant', 'data is stored but no terminator is known to follow it', tr)
    r.count('operations_interpreted', ops); r.count('lengths_of_terminated_text', h.spans)
    collect(r, A, ('bounds',)); cover(r, A, h)
    r.need('operations_interpreted', 40); r.need('access_sites', 25)
    return r

# ------------------------------------------------------------------ lexer
from checks import failhook
class Refused(failhook.FailHook):
    """a token that does not fit is refused: the caller may not go on as if it had it"""
    def __init__(s): failhook.FailHook.__init__(s, ('step',)); s.used = {}
    def reset(s): failhook.FailHook.reset(s); s.used = {}
    def export(s): return failhook.FailHook.export(s) + (s.used,)
    def merge(s, x): failhook.FailHook.merge(s, x[:4]); s.used.update(x[4])
    def on_outcome(s, e, f, ins, st, g, args, o):
        from engine import root
        if g.name != 'u_lexer_get_match' or len(args) < 2: return
        b = root(args[1])
        st.mark = frozenset(m for m in st.mark if not (m[0] == 'refused' and m[1] == b))
        if o.ret != ('c', 0): return
        s.site(f, 'step', ins, g.name)
        st.mark = st.mark | {('fail', 'step', g.name, ins.line, o.ret), ('refused', b, args[1], ins.line)}
    def on_call(s, e, f, ins, st, name, args):
        from engine import root, lines
        if name == 'u_lexer_get_match' or ('lossy',) in st.mark: return None
        for m in st.mark:
            if m[0] != 'refused': continue
            for a in args:
                if a == m[2] and (m[1][0] == 'al' or a != m[1]) and name not in ('memset',): s.used[(f.key, ins.line)] = (f.file, ins.line, f.name, name, m[3], lines(st.trace))
        return None

@numeric
def c13(pid, tier):
    r = Result('Linear-inequality abstract interpretation of the lexer: the constructor must copy the text with its terminator and start at zero; with the cursor and the match marks generalised to any position up to the terminator, every operation is interpreted; each read of the text must be inside it, nothing may write to it, no operation may move the cursor back or past the terminator, marks may only be taken from the cursor, and a match is copied only when it fits the token buffer with its terminator. Besides, on every path of a caller on which the match was refused the caller must fail and not use the buffer.')
    p = compile_all(); h = Bounds(); A = Poly(p, h); ops = 0
    mod = p.modules['lexer']; M = members(mod, 'u_lexer_s'); F = 'srcs/toolbox/lexer.c'
    from ir import consts
    K = consts(['U_TOKEN_SZ'], ['toolbox/lexer.h'])['U_TOKEN_SZ']
    names = ('pos', 'lmatch', 'rmatch', 'slen', 's')
    n = A.A(('text length',), 0, 1 << 61); A.fixed |= set(n.t)
    def textarg(A, st):
        u = A.atom(('obj', 'text'), 1 << 12, 1 << 62, ptr=True); st.ext[u] = n + 1; st.cont = st.cont | {(u, n, L(0))}; return L(0, {u: 1})
    cs = constructor(A, 'u_lexer_new', {0: textarg}, 1); r.count('constructor_exits', len(cs))
    for st, obj, f in cs:
        tr = poly.lines(st.trace)
        if obj is None: r.add(F, f.line, f.name, 'invariant', 'the constructor succeeds without storing the object', tr); continue
        v = {k: cell(A, st, obj, M[k]) for k in names}
        for k in names:
            if v[k] is None and ('zero', obj) in st.mark: v[k] = L(0)
        b, off = A.split(v['s']) if v['s'] is not None else (None, None)
        if None in v.values() or b is None or off != L(0) or st.ext.get(b) is None: r.add(F, f.line, f.name, 'invariant', 'a new lexer has unknown text or counters', tr); continue
        if not A.ge0(st, st.ext[b] - v['slen'] + -1): r.add(F, f.line, f.name, 'invariant', 'the text of a new lexer does not hold its length and a terminator', tr)
        if not nul_at(A, st, b, v['slen']): r.add(F, f.line, f.name, 'invariant', 'the recorded length of a new lexer is not where the terminator is', tr)
        for k in ('pos', 'lmatch', 'rmatch'):
            if not A.eq0(st, v[k]): r.add(F, f.line, f.name, 'invariant', 'a new lexer does not start at the beginning (%s)' % k, tr)
        if b == A.atom(('obj', 'text'), 1 << 12, 1 << 62, ptr=True): r.add(F, f.line, f.name, 'invariant', 'a new lexer keeps the text of its caller instead of a copy', tr)
    pub = [f for f in mod.functions.values() if not f.decl and not f.internal and f.name not in ('u_lexer_new', 'u_lexer_free')]
    for f in sorted(pub, key=lambda f: f.name):
        if not f.params or f.params[0][0].k != 'ptr': continue
        st = poly.St()
        obj = A.atom(('obj', 'lexer'), 1 << 12, 1 << 62, ptr=True); st.ext[obj] = L(structsize(mod, 'u_lexer_s'))
        b = A.atom(('obj', 'lexed'), 1 << 12, 1 << 62, ptr=True); ln = A.A(('slen',), 0, 1 << 61); v = {k: A.A((k,), 0, 1 << 61) for k in ('pos', 'lmatch', 'rmatch')}
        A.fixed |= set(ln.t) | set(a for x in v.values() for a in x.t)
        st.ext[b] = ln + 1; st.cont = frozenset({(b, ln, L(0))}); h.limit = {(b, 'w'): L(0)}
        setcell(A, st, obj, M['s'], L(0, {b: 1})); setcell(A, st, obj, M['slen'], ln)
        A.addge(st, ln - v['pos'])
        # the marks were taken from the cursor, which never moves back
        for k in ('lmatch', 'rmatch'): A.addge(st, v['pos'] - v[k])
        for k in v: setcell(A, st, obj, M[k], v[k])
        args = [L(0, {obj: 1})]; tok = None
        for k, (t, nm, bv) in list(enumerate(f.params))[1:]:
            if t.k == 'ptr' and f.name == 'u_lexer_get_match':
                tok = A.atom(('obj', 'token'), 1 << 12, 1 << 62, ptr=True); st.ext[tok] = L(K); args.append(L(0, {tok: 1}))
            elif t.k == 'ptr' and f.name in ('u_lexer_next', 'u_lexer_skip'):
                u = A.atom(('obj', 'char cell'), 1 << 12, 1 << 62, ptr=True); st.ext[u] = L(1); args.append(L(0, {u: 1}))
            else: args.append(A.intatom(('arg', f.name, k), t))
        res = A.root(f, [st], args); ops += 1
        if not res: raise AnalysisError('%s never returns' % f.name)
        for x, rv in res:
            tr = poly.lines(x.trace)
            def bad(msg): r.add(F, f.line, f.name, 'cursor', msg, tr)
            w = {k: cell(A, x, obj, M[k]) for k in names}
            if None in w.values(): bad('a counter is lost'); continue
            if w['s'] != L(0, {b: 1}) or not A.eq0(x, w['slen'] - ln): bad('the text or its length changes'); continue
            if not A.ge0(x, ln - w['pos']): bad('the cursor (%s) is not shown to stay within the text (%s)' % (A.show(w['pos']), A.show(ln)))
            if not A.ge0(x, w['pos'] - v['pos']): bad('the cursor can move back (%s)' % A.show(w['pos']))
            for k in ('lmatch', 'rmatch'):
                if not (A.eq0(x, w[k] - v[k]) or A.eq0(x, w[k] - w['pos'])): bad('%s (%s) is not taken from the cursor' % (k, A.show(w[k])))
            if f.name in ('u_lexer_next', 'u_lexer_skip', 'u_lexer_expect_char'):
                for y in A.assume(x.copy(), poly.Cmp('eq', rv, L(0), 32), True):
                    if not A.ge0(y, w['pos'] - v['pos'] + -1): bad('success is reported but the cursor has not advanced')
            if f.name == 'u_lexer_record_lmatch' and not A.eq0(x, w['lmatch'] - v['pos']) or f.name == 'u_lexer_record_rmatch' and not A.eq0(x, w['rmatch'] - v['pos']): bad('the mark is not set')
            if f.name == 'u_lexer_eot':
                for val in (True, False):
                    for y in A.assume(x.copy(), poly.Cmp('ne' if val else 'eq', rv, L(0), 32), True):
                        if val and not A.ge0(y, v['pos'] - ln) or not val and not A.ge0(y, ln - v['pos'] + -1): bad('the end of the text is misjudged')
            if tok is not None:
                for y in A.assume(x.copy(), poly.Cmp('ne', rv, L(0), 64), True):
                    if not A.eq0(y, rv - L(0, {tok: 1})): bad('something else than the token buffer is returned')
                    elif not any(cb == tok and cv == L(0) and A.ge0(y, L(K - 1) - co) and A.eq0(y, co - (v['rmatch'] - v['lmatch']) + -1) for cb, co, cv in y.cont): bad('a match is returned without a terminator after its last character')
    h.limit = {}
    hk = Refused()
    import engine, models
    e = engine.Engine(p, models.MODELS, [hk])
    e.only([f for f in p.allfns if any(p.calleename(i) == 'u_lexer_get_match' for i in f.calls())]); e.run()
    for f, kind, name, line, path in failhook.verdicts(e, hk): r.add(f.file, line, f.name, 'refused', '%s refuses the match here but the function goes on to report success' % name, path)
    for k, (fl, ln_, fn, name, at, path) in sorted(hk.used.items()): r.add(fl, ln_, fn, 'refused', 'the token buffer is passed to %s although the match was refused at line %d' % (name, at), path)
    r.count('operations_interpreted', ops); r.cov['callers_that_take_a_match'] = len(hk.sites.get('step', ()))
    collect(r, A, ('bounds',)); cover(r, A, h)
    r.need('operations_interpreted', 12); r.need('access_sites', 6); r.need('callers_that_take_a_match', 4)
    return r
