"""C19: counts match membership."""
import itertools
from ir import compile_all, AnalysisError, consts
import poly
from poly import L, Poly, Cmp
from checks.framework import Result
from checks.util import members
from checks.numck import Bounds, getf, cell, setcell, numeric, structsize, enumerators

ELEMS = ('u_list_item_s', 'u_hmap_o_s', 'u_json_s', 'u_hmap_q_s')

def short(t):
    t = str(t)
    return t.split(".")[1] if t.lstrip("%").startswith("struct.") else t

def structy(f, t, k): return t.elems is not None and k < len(t.elems) and t.elems[k].k == "struct"

def events(f, elems=ELEMS):
    """which stores of a function link an element into a list (+1) and which take one out (-1): {uid: (what, element type)}"""
    defs = {}; typed = {}
    for b in f.blocks.values():
        for i in b.insts:
            if i.res is not None: defs[('%', i.res)] = i
            if i.op == 'gep' and short(i.aux) in elems: typed[i.a[0]] = short(i.aux)
    params = set(('%', q[1]) for q in f.params)
    def same(v):
        # a variable that is read again is the same element
        d = defs.get(v)
        if d is not None and d.op == 'load':
            if d.a[0] in defs and defs[d.a[0]].op == 'alloca' or d.a[0] in params: return ('var', d.a[0])
            g = defs.get(d.a[0])
            if g is not None and g.op == 'gep' and short(g.aux) in elems and len(g.a) == 3 and g.a[2][0] == 'c' and not structy(f, g.aux, g.a[2][1]): return ('fld', same(g.a[0]), g.a[2][1])
        return v
    def field(v):
        """(element, type, path) for the address of a member of an element"""
        path = []
        while v in defs and defs[v].op == 'gep':
            i = defs[v]; path = [a[1] if a[0] == 'c' else None for a in i.a[2:]] + path
            if short(i.aux) in elems: return same(i.a[0]), short(i.aux), tuple(path), i.a[0]
            v = i.a[0]
        return None
    typed = {same(v): t for v, t in typed.items()}
    def load(v): return field(defs[v].a[0]) if v in defs and defs[v].op == 'load' else None
    out = {}; prevs = set()
    stores = [i for b in f.blocks.values() for i in b.insts if i.op == 'store']
    for i in stores:
        fd = field(i.a[1])
        if fd and fd[2] and fd[2][-1] == 1 and len(fd[2]) > 1: prevs.add(fd[0])
    anchors = set()
    for i in stores:
        # *anchor->prev = elm: elm goes in front of the anchor
        lp = load(i.a[1])
        if lp and same(i.a[0]) in typed and len(lp[2]) > 1 and lp[2][-1] == 1: anchors.add((lp[0], same(i.a[0])))
    for i in stores:
        v, p = same(i.a[0]), i.a[1]
        lp, lv = load(p), load(i.a[0])
        if lp and lv and lp[0] == lv[0] and len(lp[2]) > 1 and lp[2][:-1] == lv[2][:-1] and lp[2][-1] == 1 and lv[2][-1] == 0: out[i.uid] = (-1, lp[1], lp[0], lp[3]); continue
        if v in typed and v in prevs and not (v in defs and defs[v].op == 'gep'):
            fd = field(p)
            if fd is not None and (fd[0] == v or (v, fd[0]) in anchors): continue
            if p in defs and defs[p].op == 'alloca' or p in params: continue
            if fd is not None and not (len(fd[2]) > 1 or fd[2] and fd[2][-1] == 0): continue
            # a pointer member that merely refers to the element is no list link
            d = defs.get(p)
            if d is not None and d.op == 'gep' and fd is None and not link_head(d): continue
            out[i.uid] = (1, typed[v], v, i.a[0])
    return out

def link_head(g):
    """first member of a list head"""
    return g.a[-1] == ('c', 0) and len(g.a) > 2

class Members(Bounds):
    """keeps the net number of elements linked in cells of a ghost object, one cell per element type"""
    def __init__(s): Bounds.__init__(s); s.gh = None; s.ev = {}; s.model = {}; s.sums = []; s.unroll = 0; s.linked = 0; s.used = set(); s.track = {}; s.watch = []; s.held = None; s.more = None; s.keep = []
    def roots(s, A, st): return s.keep
    def jkey(s, A, st): return tuple((lambda v: v.key() if v is not None else None)(w(st)) for w in s.watch)
    def access(s, A, fr, ins, st, b, off, size, kind):
        if kind != 'w' or s.gh is None or ins.op != 'store': return
        e = s.ev.get(fr.f)
        if e is None: e = s.ev[fr.f] = events(fr.f)
        x = e.get(ins.uid)
        if x is None or x[1] not in s.track: return
        o = s.track[x[1]]
        if x[0] < 0 and s.held is not None: A.addge(st, s.held(st) + -1)      # what is taken out had been counted
        s.used.add((fr.f.file, ins.line, x[0]))
        setcell(A, st, s.gh, o, s.net(A, st, x[1]) + x[0], 16)
    def net(s, A, st, ty):
        c = cell(A, st, s.gh, s.track[ty]); return c if c is not None else L(0)
    def candidates(s, A, fr, h, entry, hd, defs):
        out = list(s.more(hd, entry, defs)) if s.more else []
        for fn in s.sums:
            a, b = fn(hd), fn(entry)
            if a is None or b is None: continue
            out += [a - b, b - a]
        return out
    def call(s, A, fr, ins, st, name, args):
        m = s.model.get(name)
        return None if m is None else m(A, fr, ins, st, args)

@numeric
def c19(pid, tier):
    r = Result('Abstract interpretation of every operation that changes the membership of a counted container. The stores of a list link and of a list unlink are recognised in the code (also through the queue macros) and counted in a ghost variable next to the recorded count: on every path the recorded count must change by exactly the number of elements linked less the number unlinked, and by what the result of the operation says (one on success, none on failure). Trees: every function that rearranges nodes is interpreted on every arrangement of empty and non-empty subtrees of arbitrary size, recursive calls replaced by what they are shown to guarantee, and the recorded sizes of all nodes involved must be the sizes of what hangs below them.')
    p = compile_all(); h = Members(); A = Poly(p, h)
    h.gh = A.atom(('ghost', 'members'), 1 << 12, 1 << 62, ptr=True)
    def obj(st, name, size):
        a = A.atom(('obj', name), 1 << 12, 1 << 62, ptr=True); st.ext[a] = L(size); return a
    def fptr(name): return A.A(('fn', name), 4096, 1 << 47, ptr=True, fn=name)
    def can(x, rv, v, w=32):
        y = x.copy(); return bool(A.assume(y, Cmp('eq', rv, L(v), w), True))
    def bad(f, msg, x=None): r.add(f.file, f.line, f.name, 'count', msg, poly.lines(x.trace) if x is not None else ())
    def outcomes(x, rv):
        """the exit state under success and under failure"""
        out = []
        y = x.copy()
        if A.assume(y, Cmp('eq', rv, L(0), 32), True): out.append((y, True))
        y = x.copy()
        if A.assume(y, Cmp('ne', rv, L(0), 32), True): out.append((y, False))
        return out
    def run(f, st, args, n0=()):
        for k, n in enumerate(n0): setcell(A, st, h.gh, 128 + 8 * k, n)
        if (h.gh, 0) not in st.mem:
            for k in range(3): setcell(A, st, h.gh, 16 * k, L(0), 16)
        res = A.root(f, [st], args); r.count('operations')
        if not res: raise AnalysisError('%s never returns' % f.name)
        r.cov['paths'] = r.cov.get('paths', 0) + len(res); return res
    def judge(f, x, ok, c0, c1, net, want, wantfail=(0,)):
        """recorded count against links, links against the outcome"""
        d = c1 - c0
        if not A.eq0(x, d - net): bad(f, 'the recorded count changes by %s while %s element(s) are linked (net) on this path' % (A.show(d), A.show(net)), x); return
        if not any(A.eq0(x, d - w) for w in (want if ok else wantfail)): bad(f, '%s but the recorded count changes by %s' % ('succeeds' if ok else 'fails', A.show(d)), x)
    def n0(st, k=0): return cell(A, st, h.gh, 128 + 8 * k)
    def watch(cnt, ty=None):
        """states that differ in how far the count has moved are not merged"""
        def w(st):
            c, z = cnt(st), n0(st)
            return None if c is None or z is None else c - z
        h.watch = [w] + ([lambda st: h.net(A, st, ty)] if ty else [])
    # ---- lists
    mod = p.modules['list']; M = members(mod, 'u_list_s'); LS = structsize(mod, 'u_list_s')
    def lst(st):
        o = obj(st, 'list', LS); n = A.A(('count', 'list'), 0, 1 << 40); setcell(A, st, o, M['count'], n); return o, n
    h.track = {'u_list_item_s': 0}
    h.sums = [lambda st: (lambda c: None if c is None else c - h.net(A, st, 'u_list_item_s'))(cell(A, st, lo, M['count']))]
    lo = A.atom(('obj', 'list'), 1 << 12, 1 << 62, ptr=True)
    for name, want in (('u_list_insert', (1,)), ('u_list_add', (1,)), ('u_list_del', (-1,)), ('u_list_del_n', (-1,)), ('u_list_clear', None), ('u_list_get_n', None), ('u_list_iterate', None)):
        f = p.functions.get(name)
        if f is None: continue
        st = poly.St(); o, n = lst(st)
        if name == 'u_list_del_n': A.addge(st, n + -1)
        args = [L(0, {o: 1})] + [A.intatom(('arg', name, k), t) for k, (t, nm, bv) in enumerate(f.params) if k]
        watch(lambda st: cell(A, st, o, M['count']), 'u_list_item_s')
        for x, rv in run(f, st, args, [n]):
            n = n0(x); c = cell(A, x, o, M['count'])
            if c is None: bad(f, 'the count is lost', x); continue
            if name == 'u_list_clear':
                first = cell(A, x, o, M['head'])
                for y, ok in outcomes(x, rv):
                    c = cell(A, y, o, M['count'])
                    if ok and not A.eq0(y, c): bad(f, 'succeeds but leaves the count at %s' % A.show(c), x)
                    if ok and first is not None and not A.eq0(y, first): bad(f, 'succeeds but leaves elements in the list', x)
            elif want is None:
                if not A.eq0(x, c - n) or not A.eq0(x, h.net(A, x, 'u_list_item_s')): bad(f, 'an operation that only looks changes the list', x)
            else:
                for y, ok in outcomes(x, rv): judge(f, y, ok, n0(y), cell(A, y, o, M['count']), h.net(A, y, 'u_list_item_s'), want)
    f = p.functions.get('u_list_count')
    if f:
        st = poly.St(); o, n = lst(st)
        for x, rv in run(f, st, [L(0, {o: 1})], [n]):
            if not A.eq0(x, rv - n0(x)): bad(f, 'does not return the count', x)
    h.sums = []; h.watch = []
    # ---- priority queues
    mod = p.modules['pqueue']; M = members(mod, 'u_pq_s')
    for name in ('u_pq_push', 'u_pq_delmax', 'u_pq_empty', 'u_pq_full', 'u_pq_peekmax'):
        f = p.functions.get(name)
        if f is None: continue
        st = poly.St(); o = obj(st, 'pq', structsize(mod, 'u_pq_s')); n = A.A(('count', 'pq'), 0, 1 << 40); cap = A.A(('cap', 'pq'), 2, 1 << 40); A.addge(st, cap - n)
        setcell(A, st, o, M['nelems'], n); setcell(A, st, o, M['nitems'], cap); q = obj(st, 'slots', 1 << 50); setcell(A, st, o, M['q'], L(0, {q: 1}))
        args = [L(0, {o: 1})] + [A.intatom(('arg', name, k), t) if t.k in ('int', 'ptr') else None for k, (t, nm, bv) in enumerate(f.params) if k]
        watch(lambda st: cell(A, st, o, M['nelems']))
        for x, rv in run(f, st, args, [n, cap]):
            c = cell(A, x, o, M['nelems']); n = n0(x); cap = n0(x, 1)
            if c is None: bad(f, 'the count is lost', x); continue
            if name == 'u_pq_push':
                for y, ok in outcomes(x, rv):
                    c = cell(A, y, o, M['nelems']); n = n0(y); cap = n0(y, 1)
                    if not A.eq0(y, c - n - (1 if ok else 0)): bad(f, '%s but the count changes by %s' % ('succeeds' if ok else 'fails', A.show(c - n)), x)
                    if ok and not A.ge0(y, cap - n - 1): bad(f, 'succeeds on a full queue', x)
                    if not ok and not A.ge0(y, n - cap): bad(f, 'fails on a queue that is not full', x)
            elif name == 'u_pq_delmax':
                for lo_, d in ((0, 0), (1, -1)):
                    y = x.copy()
                    if not (A.addeq(y, n0(y)) if lo_ == 0 else A.addge(y, n0(y) + -1)): continue
                    c = cell(A, y, o, M['nelems']); n = n0(y)
                    if not A.eq0(y, c - n - d): bad(f, 'the count changes by %s when %s' % (A.show(c - n), 'the queue is empty' if lo_ == 0 else 'the queue holds elements'), x)
            elif not A.eq0(x, c - n): bad(f, 'an operation that only looks changes the count', x)
            elif name == 'u_pq_empty':
                for y, ok in outcomes(x, rv):
                    n = n0(y)
                    if not (A.ge0(y, n + -1) if ok else A.eq0(y, n)): bad(f, 'does not tell whether there are elements', x)
            elif name == 'u_pq_full':
                for y, ok in outcomes(x, rv):
                    n = n0(y); cap = n0(y, 1)
                    if not (A.ge0(y, cap - n - 1) if ok else A.eq0(y, cap - n)): bad(f, 'does not tell whether there is room', x)
    # ---- JSON arrays
    mod = p.modules['json']; M = members(mod, 'u_json_s'); JS = structsize(mod, 'u_json_s'); J = enumerators(mod, 'U_JSON_TYPE_')
    h.track = {'u_json_s': 16}
    h.model = {'u_json_free': lambda A, fr, ins, st, args: [(st, L(0))]}
    for kind in ('ARRAY', 'OBJECT', 'STRING'):
        for name in ('u_json_add', 'u_json_remove'):
            f = p.functions.get(name)
            if f is None or kind == 'STRING' and name == 'u_json_remove': continue
            st = poly.St(); o = obj(st, 'container', JS); j = obj(st, 'child', JS); n = A.A(('count', 'json'), 1, (1 << 31) - 2)
            setcell(A, st, o, M['type'], L(J['U_JSON_TYPE_' + kind]), 4); setcell(A, st, o, M['count'], n, 4)
            setcell(A, st, o, M['parent'], L(0))
            if name == 'u_json_remove': setcell(A, st, j, M['parent'], L(0, {o: 1})); args = [L(0, {j: 1})]
            else: args = [L(0, {o: 1}), L(0, {j: 1})]
            some = False
            watch(lambda st: cell(A, st, o, M['count']), 'u_json_s')
            for x, rv in run(f, st, args, [n]):
                for y, ok in outcomes(x, rv):
                    c = cell(A, y, o, M['count']); n = n0(y)
                    if c is None: bad(f, 'the count is lost', x); continue
                    d = 1 if name == 'u_json_add' else -1; some |= ok
                    net = h.net(A, y, 'u_json_s')
                    if not A.eq0(y, net - (d if ok else 0)): bad(f, '%s but %s child(ren) are linked (net)' % ('succeeds' if ok else 'fails', A.show(net)), x)
                    if not A.eq0(y, c - n - (d if ok and kind == 'ARRAY' else 0)): bad(f, '%s and the count of the %s changes by %s' % ('succeeds' if ok else 'fails', kind.lower(), A.show(c - n)), x)
                    if name == 'u_json_add' and ok:
                        pp = cell(A, y, j, M['parent'])
                        if pp is None or not A.eq0(y, pp - L(0, {o: 1})): bad(f, 'the child does not know its container', x)
            if kind == 'STRING' and some: bad(f, 'something that is no container takes a child')
    f = p.functions.get('u_json_array_count')
    if f:
        st = poly.St(); o = obj(st, 'container', JS); n = A.A(('count', 'json'), 1, (1 << 31) - 2); setcell(A, st, o, M['count'], n, 4); setcell(A, st, o, M['type'], L(J['U_JSON_TYPE_ARRAY']), 4)
        for x, rv in run(f, st, [L(0, {o: 1})], [n]):
            if not A.eq0(x, rv - n0(x)): bad(f, 'does not return the count', x)
    h.model = {}
    hmaps(r, p, h, A, obj, fptr, run, bad, outcomes, judge, n0, watch)
    tokens(r, p, h, A, obj, run, bad, outcomes)
    trees(r, p, h, A, obj, fptr, run, bad, n0)
    # the events the recognition rests on
    r.cov['link_stores'] = sum(1 for x in h.used if x[2] > 0); r.cov['unlink_stores'] = sum(1 for x in h.used if x[2] < 0)
    if r.cov['link_stores'] < 4 or r.cov['unlink_stores'] < 4: raise AnalysisError('list links not recognised: %s' % sorted(h.used))
    for u in sorted(h.used): r.sample('%s:%d %s' % (u[0], u[1], 'links' if u[2] > 0 else 'unlinks'))
    r.need('operations', 20)
    for v in A.reports.values():
        if v.cat == 'count': r.add(v.file, v.line, v.fn, v.cat, v.msg, v.path)
    return r

class Map:
    """an arbitrary hash map; the functions it is configured with are named"""
    def __init__(s, p, A, obj, fptr):
        s.A = A; s.p = p; s.obj = obj; s.fptr = fptr; mod = s.mod = p.modules['hmap']
        s.HO = members(mod, 'u_hmap_opts_s'); s.HM = members(mod, 'u_hmap_s'); s.PC = members(mod, 'u_hmap_pcy_s'); s.OB = members(mod, 'u_hmap_o_s'); s.Q = members(mod, 'u_hmap_q_s')
        s.K = consts(['U_HMAP_OPTS_OWNSDATA', 'U_HMAP_OPTS_NO_OVERWRITE', 'U_HMAP_OPTS_HASH_STRONG', 'U_HMAP_ERR_NONE', 'U_HMAP_ERR_EXISTS', 'U_HMAP_ERR_FAIL'])
        s.P = enumerators(mod, 'U_HMAP_PCY_'); s.T = enumerators(mod, 'U_HMAP_TYPE_')
    def new(s, st, tag='', policy=None, options=None, type=None):
        A = s.A
        o = s.obj(st, 'opts' + tag, structsize(s.mod, 'u_hmap_opts_s')); m = s.obj(st, 'hmap' + tag, structsize(s.mod, 'u_hmap_s'))
        n = A.A(('count', 'hmap' + tag), 0, 1 << 40)
        setcell(A, st, m, s.HM['opts'], L(0, {o: 1})); setcell(A, st, m, s.HM['sz'], n)
        size = A.A(('size', 'hmap' + tag), 2, 1 << 40); setcell(A, st, m, s.HM['size'], size)
        t = s.obj(st, 'buckets' + tag, 0); st.ext[t] = L(0, {size.one(): 8}); setcell(A, st, m, s.HM['hmap'], L(0, {t: 1}))
        for k, nm in (('f_hash', 'sa_hash'), ('f_comp', 'sa_comp'), ('f_free', 'sa_free'), ('f_key_free', 'sa_key_free'), ('f_val_free', 'sa_val_free'), ('f_pcy_cmp', 'sa_pcy_cmp')):
            if k in s.HO: setcell(A, st, o, s.HO[k], s.fptr(nm))
        if policy is not None: setcell(A, st, o, s.HO['policy'], L(policy), 4)
        if options is not None: setcell(A, st, o, s.HO['options'], L(options), 4)
        if type is not None: setcell(A, st, o, s.HO['type'], L(type), 4)
        setcell(A, st, m, s.HM['pcy'] + s.PC['pop'], s.fptr('sa_pop')); setcell(A, st, m, s.HM['pcy'] + s.PC['push'], s.fptr('sa_push'))
        return m, o, n

def hmaps(r, p, h, A, obj, fptr, run, bad, outcomes, judge, n0, watch):
    H = Map(p, A, obj, fptr); h.track = {'u_hmap_o_s': 32}
    def sz(st, m): return cell(A, st, m, H.HM['sz'])
    def both(A, fr, ins, st, d, m, n):
        """an operation on map m that adds d elements on success"""
        y = st.copy(); c = sz(y, m)
        setcell(A, y, m, H.HM['sz'], c + d); setcell(A, y, h.gh, 32, h.net(A, y, 'u_hmap_o_s') + d, 16); A.addge(y, -c + (1 << 40))
        return y
    def which(A, st, a):
        b, off = A.split(a); return b if b is not None and (b, H.HM['sz']) in st.mem else None
    def pop(A, fr, ins, st, args):
        m = which(A, st, args[0])
        if m is None: return None
        x = st.copy()
        A.addge(x, sz(x, m) + -1)
        return [(both(A, fr, ins, x, -1, m, 0), L(0)), (st, L(H.K['U_HMAP_ERR_FAIL']))]
    def two(A, fr, ins, st, args): return [(st.copy(), L(0)), (st, L(H.K['U_HMAP_ERR_FAIL']))]
    def push(A, fr, ins, st, args):
        outs = []
        y = st.copy()
        b, off = A.split(args[2])
        if b is not None and off.const(): setcell(A, y, b, off.c, A.A(('queue entry', fr.ctx, ins.uid), 4096, 1 << 62, ptr=True))
        return [(y, L(0)), (st, L(H.K['U_HMAP_ERR_FAIL']))]
    def free(A, fr, ins, st, args): return [(st, L(0))]
    def value(A, fr, ins, st, args): return [(st, A.retval(fr, ins))]
    def hashv(A, fr, ins, st, args): return [(st, A.retval(fr, ins))]
    def put(A, fr, ins, st, args):
        m = which(A, st, args[0])
        if m is None: return None
        return [(both(A, fr, ins, st.copy(), 1, m, 0), L(0)), (st.copy(), L(0)), (st.copy(), L(H.K['U_HMAP_ERR_EXISTS'])), (st, L(H.K['U_HMAP_ERR_FAIL']))]
    def resize(A, fr, ins, st, args):
        m = which(A, st, args[0])
        if m is None: return None
        y = st.copy(); t = A.atom(('obj', 'new buckets', fr.ctx, ins.uid), 1 << 12, 1 << 62, ptr=True); z = A.A(('size', 'new', fr.ctx, ins.uid), 2, 1 << 40)
        y.ext[t] = L(0, {z.one(): 8}); setcell(A, y, m, H.HM['hmap'], L(0, {t: 1})); setcell(A, y, m, H.HM['size'], z)
        return [(y, L(0)), (st, L(-1))]
    def fresh(*names): return {n: {'sa_pop': pop, 'sa_push': push, '__o_free': free, 'sa_hash': hashv, '__f_hash': hashv, 'sa_comp': value, 'sa_free': free, 'sa_key_free': free, 'sa_val_free': free, 'sa_pcy_cmp': value, 'u_hmap_put': put, '__resize': resize, 'u_hmap_opts_free': free, 'u_log_write_ex': value}[n] for n in names}
    base = ('sa_pop', 'sa_push', '__o_free', 'sa_hash', '__f_hash', 'sa_comp', 'sa_free', 'sa_key_free', 'sa_val_free', 'sa_pcy_cmp', 'u_log_write_ex')
    ty = 'u_hmap_o_s'
    kinds = sorted(set(v for k, v in H.T.items() if not k.endswith('LAST')))
    for name, want, extra in (('u_hmap_put', (0, 1), ('__resize',)), ('u_hmap_del', (-1,), ()), ('u_hmap_get', (0,), ()), ('u_hmap_easy_del', (-1,), ()), ('u_hmap_easy_get', None, ())):
        f = p.functions.get(name)
        if f is None: continue
        for k in kinds:
            h.model = fresh(*(base + extra)); h.sums = [lambda st: (lambda c: None if c is None else c - h.net(A, st, ty))(sz(st, m))]
            st = poly.St(); m, o, n = H.new(st, type=k)
            A.addge(st, n + (-1 if name.endswith('del') else 0))
            a = obj(st, 'key', 64); args = [L(0, {m: 1}), L(0, {a: 1})] + [A.intatom(('arg', name, q), t) for q, (t, nm, bv) in enumerate(f.params) if q > 1]
            if name == 'u_hmap_put':
                e = obj(st, 'element', structsize(H.mod, 'u_hmap_o_s')); setcell(A, st, e, H.OB['pqe'], L(0)); args[1] = L(0, {e: 1})
            watch(lambda st: sz(st, m), ty)
            for x, rv in run(f, st, args, [n]):
                c = sz(x, m); net = h.net(A, x, ty)
                if c is None: bad(f, 'the count is lost', x); continue
                if want is None:
                    if not A.eq0(x, c - n0(x)) or not A.eq0(x, net): bad(f, 'an operation that only looks changes the map', x)
                    continue
                for y, ok in outcomes(x, rv):
                    # discarding an element to make room is a change of its own
                    judge(f, y, ok, n0(y), sz(y, m), h.net(A, y, ty), want, (0, -1) if name == 'u_hmap_put' else (0,))
    f = p.functions.get('u_hmap_clear')
    if f:
        h.model = fresh(*base); st = poly.St(); m, o, n = H.new(st)
        for x, rv in run(f, st, [L(0, {m: 1})]):
            c = sz(x, m)
            if c is None or not A.eq0(x, c): bad(f, 'leaves the count at %s' % (A.show(c) if c is not None else '?'), x)
    f = p.functions.get('u_hmap_count')
    if f:
        st = poly.St(); m, o, n = H.new(st)
        for x, rv in run(f, st, [L(0, {m: 1})], [n]):
            if not A.eq0(x, rv - n0(x)): bad(f, 'does not return the count', x)
    f = p.functions.get('u_hmap_copy')
    if f:
        h.model = fresh(*(base + ('u_hmap_put',)))
        st = poly.St(); m, o, n = H.new(st); m2, o2, n2 = H.new(st, ' to'); A.addge(st, n + -(1 << 20))
        def total(st):
            a, b = sz(st, m), sz(st, m2)
            return None if a is None or b is None else a + b - h.net(A, st, ty)
        h.sums = [total]; h.held = lambda st: sz(st, m)
        h.watch = [lambda st: sz(st, m), lambda st: sz(st, m2), lambda st: h.net(A, st, ty)]
        for x, rv in run(f, st, [L(0, {m2: 1}), L(0, {m: 1})], [n, n2]):
            t = total(x)
            if t is None or not A.eq0(x, t - n0(x) - n0(x, 1)): bad(f, 'the counts of the two maps do not change by the elements moved', x)
    f = [g for g in p.modules['hmap'].functions.values() if g.name == '__resize' and not g.decl]
    if f:
        f = f[0]; moved = []
        def copy(A, fr, ins, st, args):
            to, frm = which(A, st, args[0]), which(A, st, args[1])
            if to is None or frm is None: bad(f, 'elements are copied from or to something that is no map', st); return [(st, L(0))]
            y = st.copy(); setcell(A, y, to, H.HM['sz'], sz(y, to) + sz(y, frm)); setcell(A, y, frm, H.HM['sz'], L(0))
            return [(y, L(0)), (st, L(H.K['U_HMAP_ERR_FAIL']))]
        def new(A, fr, ins, st, args):
            y = st.copy(); m2, o2, n2 = H.new(y, ' new'); setcell(A, y, m2, H.HM['sz'], L(0))
            b, off = A.split(args[1]); setcell(A, y, b, off.c, L(0, {m2: 1}))
            return [(y, L(0)), (st, L(H.K['U_HMAP_ERR_FAIL']))]
        h.model = dict(fresh(*base), u_hmap_copy=copy, u_hmap_new=new, u_hmap_free=free, u_hmap_opts_copy=two, u_hmap_opts_free=free); h.sums = []
        st = poly.St(); m, o, n = H.new(st)
        watch(lambda st: sz(st, m))
        for x, rv in run(f, st, [L(0, {m: 1})], [n]):
            for y, ok in outcomes(x, rv):
                c = sz(y, m); n = n0(y)
                if c is None or not A.eq0(y, c - n): bad(f, '%s and the count changes by %s' % ('succeeds' if ok else 'fails', A.show(c - n) if c is not None else '?'), x)
    h.model = {}; h.sums = []; h.watch = []; h.held = None

def tokens(r, p, h, A, obj, run, bad, outcomes):
    f = p.functions.get('u_strtok')
    if f is None: return
    h.track = {}; h.sums = []
    g = A.atom(('ghost', 'last slot'), 1 << 12, 1 << 62, ptr=True)
    def access(A, fr, ins, x, b, off, size, kind):
        if kind == 'w' and size == L(8): A.addge(x, -off + (1 << 47))          # no object is bigger than the address space
        if kind == 'w' and ins.op == 'store' and fr.depth == 0 and size == L(8) and A.byid[b].name[0] in ('h', 'r', 'realloc', 'cellp', 'phi'):
            v = A.val(fr, x, ins.a[0])
            if isinstance(v, L):
                vb, vo = A.split(v)
                if vb is not None and vo == L(0) and A.byid[vb].name[0] == 'h' and vb != b: setcell(A, x, g, 0, off)
    pairs = []
    def more(hd, entry, defs):
        # slots and tokens move together
        for a, v0, w in defs:
            for b, u0, z in defs:
                if w[-1] is not None and z[-1] is None and z[0] == '%' and isinstance(v0, L) and isinstance(u0, L):
                    q = L(0, {a: 1, b: -8}) - v0 + u0.mul(8)
                    pairs.append((v0, u0)); yield q; yield -q
                    q = L(0, {a: 1, b: -8}); yield q; yield -q
    def moves(A, fr, ins, st, args):
        # to another place each time
        y = st.copy(); q = A.atom(('realloc', fr.ctx, ins.uid), 4096, 1 << 62, ptr=True); y.ext[q] = args[1]
        A.assume(y, Cmp('ne', L(0, {q: 1}), args[0], 64), True)
        return [(y, L(0, {q: 1})), (st, L(0))]
    for model in (moves,):
        del pairs[:]
        st = poly.St(); s = obj(st, 'text', 1 << 20); d = obj(st, 'delimiters', 8); o = obj(st, 'tokens', 8); n = obj(st, 'count', 8)
        st.cont = st.cont | {(s, L((1 << 20) - 1), L(0)), (d, L(7), L(0))}; setcell(A, st, o, 0, L(0)); setcell(A, st, n, 0, L(77)); setcell(A, st, g, 0, L(-1))
        h.access = access; h.more = more; h.model = {'u_realloc': model, 'realloc': model}
        h.assumed = lambda st, defs: [L(1 << 60, {a: -1}) for a, v0, w in defs if w[0] == '%' and w[-1] is None and A.byid[a].hi > 1 << 60]          # a count of things in memory
        try: res = run(f, st, [L(0, {s: 1}), L(0, {d: 1}), L(0, {o: 1}), L(0, {n: 1})])
        finally: del h.access; h.more = None; h.model = {}; del h.assumed
        for x, rv in res:
            for y, ok in outcomes(x, rv):
                c = cell(A, y, n, 0); k = cell(A, y, g, 0)
                if not ok:
                    if c is None or not A.eq0(y, c + -77): bad(f, 'fails but changes the count', x)
                    continue
                good = c is not None and k is not None and (A.eq0(y, k - c.mul(8)) or model is moves and any(A.eq0(y, k - c.mul(8) - v0 + u0.mul(8)) for v0, u0 in pairs))
                if not good: bad(f, 'the number of tokens is not the number of slots filled', x)

def trees(r, p, h, A, obj, fptr, run, bad, n0):
    cap = A.CAP; A.CAP = 512          # arrangements are not merged
    mod = p.modules['bst']; N = members(mod, 'u_bst_node_s'); NS = structsize(mod, 'u_bst_node_s'); B = members(mod, 'u_bst_s'); BS = structsize(mod, 'u_bst_s')
    seq = itertools.count()
    h.track = {}; h.sums = []
    def size(st, t):
        """recorded size of the tree at t (an L)"""
        if t is None or not isinstance(t, L): return None
        if A.eq0(st, t): return L(0)
        b, off = A.split(t)
        return cell(A, st, b, N['nelem']) if b is not None and off == L(0) else None
    def node(st, tag, left, right, n):
        a = obj(st, tag, NS); setcell(A, st, a, N['left'], left); setcell(A, st, a, N['right'], right); setcell(A, st, a, N['nelem'], n); setcell(A, st, a, N['key'], A.A(('key', tag), 4096, 1 << 62, ptr=True)); return L(0, {a: 1})
    def tree(st, tag, n=None, depth=1, left=None):
        """every way a non-empty tree of n nodes can look at its top: [(state, L)]; left: size of its left subtree"""
        out = []
        if n is None: n = A.A(('size', tag), 1, 1 << 40)
        for l, rr in itertools.product((0, 1), repeat=2):
            x = st.copy(); parts = [(x, L(0), L(0))]; tot = L(1); sub = {}
            cases = [x]
            ch = {}
            for side, on in (('l', l), ('r', rr)):
                if not on: ch[side] = None; continue
                z = A.A(('size', tag + side), 1, 1 << 40); ch[side] = z; tot = tot + z
            if not A.addeq(x, tot - n): continue
            if left is not None:
                if not A.addeq(x, (ch['l'] if l else L(0)) - left): continue
            sts = [(x, {})]
            for side in ('l', 'r'):
                nx = []
                for y, got in sts:
                    if ch[side] is None: nx.append((y, dict(got, **{side: L(0)}))); continue
                    if depth > 0:
                        for z, t in tree(y, tag + side, ch[side], depth - 1): nx.append((z, dict(got, **{side: t})))
                    else:
                        q = obj(y, tag + side, NS); setcell(A, y, q, N['nelem'], ch[side]); nx.append((y, dict(got, **{side: L(0, {q: 1})})))
                sts = nx
            for y, got in sts: out.append((y, node(y, tag, got['l'], got['r'], n)))
        return out
    def shapes(st, tag, **kw): return [(st.copy(), L(0))] + tree(st, tag, **kw)
    def hyp(fr, ins): return 'result of %s@%d.%d' % (A.prog.calleename(ins), ins.line, ins.uid)
    def ret(fr, ins, st, n, left=None):
        """a tree of n nodes, whatever it looks like"""
        if n is None: return [(st, A.retval(fr, ins))]
        out = []
        y = st.copy()
        if A.addeq(y, n): out.append((y, L(0)))
        y = st.copy()
        if A.addge(y, n + -1): out += tree(y, hyp(fr, ins), n, 0, left)
        return out
    found = {}
    def m_push(A, fr, ins, st, args):
        n = size(st, args[1]); return ret(fr, ins, st, n + 1 if n is not None else None)
    def m_same(A, fr, ins, st, args): return ret(fr, ins, st, size(st, args[0]))
    def m_promote(A, fr, ins, st, args):
        n = size(st, args[0])
        if n is None: return [(st, A.retval(fr, ins))]
        if not A.ge0(st, n - args[1] - 1) and not A.probe: A.report(fr, ins, st, 'count', 'asks for the %s. node of a tree of %s node(s)' % (A.show(args[1]), A.show(n)))
        return ret(fr, ins, st, n, args[1])
    def m_join(A, fr, ins, st, args):
        a, b = size(st, args[0]), size(st, args[1])
        return ret(fr, ins, st, a + b if a is not None and b is not None else None)
    def m_delete(A, fr, ins, st, args):
        n = size(st, args[1]); out = []
        if n is None: return [(st, A.retval(fr, ins))]
        b, off = A.split(args[3])
        y = st.copy()
        if A.addge(y, n + -1):
            setcell(A, y, b, off.c, L(1), 4); out += ret(fr, ins, y, n + -1)
        out += ret(fr, ins, st, n)
        return out
    def none(A, fr, ins, st, args): return [(st, L(0))]
    def value(A, fr, ins, st, args): return [(st, A.retval(fr, ins))]
    def cmp(A, fr, ins, st, args):
        v = A.A(('cmp', args[0].key(), args[1].key()), -(1 << 31), (1 << 31) - 1); h.keep.append(v.one()); return [(st, v)]
    def gone(A, fr, ins, st, args):
        b, off = A.split(args[1])
        if b is not None: st.mark = st.mark | {('gone', b)}
        return [(st, L(0))]
    ind = {'u_bst_node_push': m_push, 'u_bst_node_push_rand': m_push, 'u_bst_node_push_top': m_push, 'u_bst_node_promote_nth': m_promote, 'u_bst_node_join_lr': m_join, 'u_bst_node_delete': m_delete, 'u_bst_node_balance': m_same, 'sa_cmp': cmp, 'sa_keyfree': none, 'sa_valfree': none, 'u_bst_node_do_free': gone, 'u_free': none, 'u_log_write_ex': value}
    def bst(st, root=None):
        b = obj(st, 'bst', BS); setcell(A, st, b, B['cmp'], fptr('sa_cmp')); setcell(A, st, b, B['keyfree'], fptr('sa_keyfree')); setcell(A, st, b, B['valfree'], fptr('sa_valfree'))
        if root is not None: setcell(A, st, b, B['root'], root)
        return b
    def verify(f, x, rv, n, msg=''):
        """the tree returned has n nodes and every node says how many hang below it"""
        s = size(x, rv)
        if s is None or not A.eq0(x, s - n): bad(f, '%sthe tree returned records %s node(s), it has %s' % (msg, A.show(s) if s is not None else '?', A.show(n)), x); return
        seen = set(); work = [rv]
        while work:
            t = work.pop()
            if A.eq0(x, t): continue
            b, off = A.split(t)
            if b in seen: bad(f, msg + 'a node hangs in two places', x); return
            if ('gone', b) in x.mark: bad(f, msg + 'a node that was released is still in the tree', x); return
            seen.add(b)
            l, rr = cell(A, x, b, N['left']), cell(A, x, b, N['right'])
            if l is None and rr is None: continue            # not looked into
            sl, sr = size(x, l), size(x, rr); me = cell(A, x, b, N['nelem'])
            if sl is None or sr is None: bad(f, msg + 'a subtree of unknown size', x); return
            if not A.eq0(x, me - sl - sr - 1): bad(f, '%sa node records %s node(s) while %s hang below it' % (msg, A.show(me), A.show(sl + sr)), x); return
            work += [l, rr]
    def fn(name):
        f = [g for g in mod.functions.values() if g.name == name and not g.decl]
        return f[0] if f else None
    def without(*ns): return {k: v for k, v in ind.items() if k not in ns}
    T = enumerators(mod, 'U_BST_ROT_')
    f = fn('u_bst_rotate')
    if f:
        for st, t in shapes(poly.St(), 'pivot', depth=1):
            n = size(st, t)
            for k, v in sorted(T.items()):
                h.model = without()
                for x, rv in run(f, st.copy(), [t, L(v)], [n]): verify(f, x, rv, n0(x), k + ': ')
    for name in ('u_bst_node_push', 'u_bst_node_push_rand', 'u_bst_node_push_top'):
        f = fn(name)
        if not f: continue
        for st, t in shapes(poly.St(), 'tree', depth=0):
            b = bst(st); new = node(st, 'new', L(0), L(0), L(1)); n = size(st, t); h.model = without()
            for x, rv in run(f, st, [L(0, {b: 1}), t, new], [n]): verify(f, x, rv, n0(x) + 1)
    f = fn('u_bst_node_push_bottom')
    if f:
        # two levels of every shape; beyond that every trip of the loop does the same
        for st, t in [(poly.St(), L(0))] + [(x, t) for x, t in leafy(A, poly.St(), 'tree', 1, node)]:
            b = bst(st, t); new = node(st, 'new', L(0), L(0), L(1)); n = size(st, t); h.model = without(); h.unroll = 4
            try: res = run(f, st, [L(0, {b: 1}), new], [n])
            finally: h.unroll = 0
            for x, rv in res: verify(f, x, rv, n0(x) + 1)
    f = fn('u_bst_node_promote_nth')
    if f:
        for st, t in tree(poly.St(), 'tree', depth=0):
            n = size(st, t); k = A.A(('arg', 'nth'), 0, 1 << 40); A.addge(st, n - k - 1); h.model = without()
            for x, rv in run(f, st, [t, k], [n, k]):
                verify(f, x, rv, n0(x))
                b, off = A.split(rv); s = size(x, cell(A, x, b, N['left'])) if b is not None else None
                if s is None or not A.eq0(x, s - n0(x, 1)): bad(f, 'the node promoted is not the one asked for', x)
    f = fn('u_bst_node_join_lr')
    if f:
        for st, l in shapes(poly.St(), 'left tree', depth=0):
            for st2, t in shapes(st, 'right tree', depth=0):
                h.model = without(); n = size(st2, l) + size(st2, t)
                for x, rv in run(f, st2, [l, t], [n]): verify(f, x, rv, n0(x))
    f = fn('u_bst_node_delete')
    if f:
        for st, t in shapes(poly.St(), 'tree', depth=0):
            b = bst(st); fl = obj(st, 'found', 4); setcell(A, st, fl, 0, L(0), 4); key = obj(st, 'key', 8); n = size(st, t); h.model = without()
            for x, rv in run(f, st, [L(0, {b: 1}), t, L(0, {key: 1}), L(0, {fl: 1})], [n]):
                c = cell(A, x, fl, 0)
                if c is None or not c.const(): bad(f, 'not told whether something was removed', x); continue
                top = A.split(t)[0]
                verify(f, x, rv, n0(x) - (1 if c.c else 0), 'removed: ' if c.c else 'not found: ')
                if not c.c and top is not None and ('gone', top) in x.mark: bad(f, 'a node is released without being reported as removed', x)
    f = fn('u_bst_node_balance')
    if f:
        for st, t in shapes(poly.St(), 'tree', depth=0):
            n = size(st, t); h.model = without()
            for x, rv in run(f, st, [t], [n]): verify(f, x, rv, n0(x))
    # the container
    f = fn('u_bst_push')
    if f:
        def m_new(A, fr, ins, st, args):
            y = st.copy(); t = node(y, 'new', L(0), L(0), L(1)); b, off = A.split(args[3]); setcell(A, y, b, off.c, t)
            return [(y, L(0)), (st, L(-1))]
        def m_bottom(A, fr, ins, st, args):
            b, off = A.split(args[0]); return m_push(A, fr, ins, st, [args[0], cell(A, st, b, B['root']), args[1]])
        for st, t in shapes(poly.St(), 'tree', depth=0):
            b = bst(st, t); key = obj(st, 'key', 8); n = size(st, t); h.model = dict(ind, u_bst_node_new=m_new, u_bst_node_push_bottom=m_bottom)
            for x, rv in run(f, st, [L(0, {b: 1}), L(0, {key: 1}), L(0)], [n]):
                n = n0(x)
                s = size(x, cell(A, x, b, B['root'])); ok = A.eq0(x, rv)
                if s is None or not A.eq0(x, s - n - (1 if ok else 0)): bad(f, '%s but the tree goes from %s to %s node(s)' % ('succeeds' if ok else 'fails', A.show(n), A.show(s) if s is not None else '?'), x)
    f = fn('u_bst_delete')
    if f:
        for st, t in shapes(poly.St(), 'tree', depth=0):
            b = bst(st, t); key = obj(st, 'key', 8); n = size(st, t); h.model = dict(ind)
            for x, rv in run(f, st, [L(0, {b: 1}), L(0, {key: 1})], [n]):
                n = n0(x)
                s = size(x, cell(A, x, b, B['root'])); ok = A.eq0(x, rv)
                if s is None or not A.eq0(x, s - n + (1 if ok else 0)): bad(f, '%s but the tree goes from %s to %s node(s)' % ('succeeds' if ok else 'fails', A.show(n), A.show(s) if s is not None else '?'), x)
    f = fn('u_bst_node_new')
    if f:
        st = poly.St(); b = bst(st); key = obj(st, 'key', 8); out = obj(st, 'out', 8); setcell(A, st, out, 0, L(0)); h.model = dict(without('u_bst_node_do_free'), u_bst_assign=lambda A, fr, ins, st, a: [(st.copy(), L(0)), (st, L(-1))])
        for x, rv in run(f, st, [L(0, {b: 1}), L(0, {key: 1}), L(0), L(0, {out: 1})]):
            if not A.eq0(x, rv): continue
            t = cell(A, x, out, 0); q = A.split(t)[0] if t is not None else None
            c = cell(A, x, q, N['nelem']) if q is not None else None
            if c is None or not A.eq0(x, c + -1): bad(f, 'a new node does not count itself', x)
    for name, empty in (('u_bst_count', True),):
        f = fn(name)
        if not f: continue
        for st, t in shapes(poly.St(), 'tree', depth=0):
            b = bst(st, t); n = size(st, t); h.model = dict(ind)
            for x, rv in run(f, st, [L(0, {b: 1})], [n]):
                if not A.eq0(x, rv - n0(x)): bad(f, 'does not return the number of nodes', x)
    h.model = {}; A.CAP = cap

def leafy(A, st, tag, depth, node):
    """every complete tree of at most depth + 1 levels"""
    out = []
    def build(d, tag):
        if d < 0: return [None]
        subs = build(d - 1, tag)
        return [None] + [(l, rr) for l in subs for rr in subs]
    def count(t): return 0 if t is None else 1 + count(t[0]) + count(t[1])
    def make(x, t, tag):
        if t is None: return L(0)
        return node(x, tag, make(x, t[0], tag + 'l'), make(x, t[1], tag + 'r'), L(count(t)))
    for t in build(depth, tag):
        if t is None: continue
        x = st.copy(); out.append((x, make(x, t, tag)))
    return out
