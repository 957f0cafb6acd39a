"""C20: the hash map frees only what it owns and its eviction queue is true."""
import itertools
from ir import compile_all, AnalysisError
import poly
from poly import L, Poly, Cmp
from checks.framework import Result
from checks.numck import Bounds, cell, setcell, numeric, structsize
from checks.cntck import Members, Map, short

O, Q = 'u_hmap_o_s', 'u_hmap_q_s'

class Owner(Members):
    """Members, plus: what an element of a bucket says about its queue entry, its key and its value; what was taken out last; how often what was released"""
    FREED, KEYS, VALS, LASTO, LASTQ, LASTF = 32, 48, 64, 80, 88, 96
    def __init__(s): Members.__init__(s); s.track = {O: 0, Q: 16}; s.pol = False; s.defs = {}; s.H = None; s.table = set(); s.keyed = None
    def access(s, A, fr, ins, st, b, off, size, kind):
        if b in s.table: Bounds.access(s, A, fr, ins, st, b, off, size, kind)
        if kind == 'w' and ins.op == 'store':
            from checks.cntck import events
            e = s.ev.get(fr.f)
            if e is None: e = s.ev[fr.f] = events(fr.f)
            x = e.get(ins.uid)
            if x is not None and x[0] < 0 and x[1] in s.track and x[3][0] == '%':
                v = A.val(fr, st, x[3])
                if isinstance(v, L): setcell(A, st, s.gh, s.LASTO if x[1] == O else s.LASTQ, v)
        Members.access(s, A, fr, ins, st, b, off, size, kind)
    def candidates(s, A, fr, h, entry, hd, defs):
        out = Members.candidates(s, A, fr, h, entry, hd, defs)
        for a, v0, w in defs:
            if w[0] == '%' and w[2] in s.table and entry.ext.get(w[2]) is not None: out.append(entry.ext[w[2]] - L(0, {a: 1}) + -8)
        return out
    def typed(s, fr, ins):
        d = s.defs.get(fr.f)
        if d is None:
            d = s.defs[fr.f] = {('%', i.res): i for bl in fr.f.blocks.values() for i in bl.insts if i.res is not None}
        g = d.get(ins.a[0]) if ins.op == 'load' else None
        return short(g.aux) if g is not None and g.op == 'gep' else None
    def loadval(s, A, fr, ins, st, b, off, ty):
        if ty.k != 'ptr' or not off.const() or s.typed(fr, ins) != O: return None
        n = A.byid[b].name
        if off.c == s.H.OB['pqe']: return A.A(('queue entry of', b), 4096, 1 << 62, ptr=True) if s.pol else L(0)
        if off.c == s.H.OB['key']: return A.A(('key of', b), 4096, 1 << 62, ptr=True)
        if off.c == s.H.OB['val']: return A.A(('value of', b), 4096, 1 << 62, ptr=True)
        return None

@numeric
def c20(pid, tier):
    r = Result('Abstract interpretation of every hash map operation for every policy, bucket type and ownership option. Elements and queue entries linked and unlinked are counted in ghost variables: in a map with a discard policy both must change alike on every path, the entry taken out must be that of the element taken out, and without a policy no entry may appear. Releases are counted: none without U_HMAP_OPTS_OWNSDATA, through the configured function for the data type, of the element that was taken out, exactly once. Bucket accesses must be inside the table whatever an application hash function that is not declared strong returns.')
    p = compile_all(); h = Owner(); A = Poly(p, h)
    h.gh = A.atom(('ghost', 'members'), 1 << 12, 1 << 62, ptr=True)
    def obj(st, name, size):
        a = A.atom(('obj', name), 1 << 12, 1 << 62, ptr=True); st.ext[a] = L(size); return a
    def fptr(name):
        f = [g for g in p.modules['hmap'].functions.values() if g.name == name and not g.decl]
        if f: return A.A(('fn', f[0].key if hasattr(f[0], 'key') else name), 4096, 1 << 47, ptr=True, fn=f[0])
        return A.A(('fn', name), 4096, 1 << 47, ptr=True, fn=name)
    H = h.H = Map(p, A, obj, fptr); K, HO, HM, OB = H.K, H.HO, H.HM, H.OB
    D = {k: v for k, v in __import__('checks.numck', fromlist=['enumerators']).enumerators(H.mod, 'U_HMAP_OPTS_DATATYPE_').items() if not k.endswith('LAST')}
    OWN, NOOVER, STRONG = K['U_HMAP_OPTS_OWNSDATA'], K['U_HMAP_OPTS_NO_OVERWRITE'], K['U_HMAP_OPTS_HASH_STRONG']
    EXISTS, FAIL = K['U_HMAP_ERR_EXISTS'], K['U_HMAP_ERR_FAIL']
    def what(st, **kw): return ', '.join('%s %s' % (k, v) for k, v in kw.items())
    tag = ['']
    def bad(f, msg, x=None): r.add(f.file, f.line, f.name, 'queue' if 'entr' in msg or 'queue' in msg else 'owner', '%s (%s)' % (msg, tag[0]), poly.lines(x.trace) if x is not None else ())
    def g(st, o):
        c = cell(A, st, h.gh, o); return c if c is not None else L(0)
    def bump(st, o, n=1): setcell(A, st, h.gh, o, g(st, o) + n, 16)
    def fresh(st):
        for o in (0, 16, h.FREED, h.KEYS, h.VALS): setcell(A, st, h.gh, o, L(0), 16)
        for o in (h.LASTO, h.LASTQ, h.LASTF): setcell(A, st, h.gh, o, L(0))
    def run(f, st, args):
        fresh(st); res = A.root(f, [st], args); r.count('operations')
        if not res: raise AnalysisError('%s never returns' % f.name)
        r.cov['paths'] = r.cov.get('paths', 0) + len(res); return res
    def fn(name):
        f = [q for q in p.modules['hmap'].functions.values() if q.name == name and not q.decl]
        return f[0] if f else None
    own = [False]
    def can(x, rv, v, w=32):
        y = x.copy(); return y if A.assume(y, Cmp('eq', rv, L(v), w), True) else None
    def cases(x, rv):
        out = []
        for v, nm in ((0, 'ok'), (EXISTS, 'exists'), (FAIL, 'fail')):
            y = can(x, rv, v)
            if y is not None: out.append((y, nm))
        y = x.copy()
        if A.assume(y, Cmp('ne', rv, L(0), 32), True) and A.assume(y, Cmp('ne', rv, L(EXISTS), 32), True) and A.assume(y, Cmp('ne', rv, L(FAIL), 32), True): out.append((y, 'other'))
        return out
    # ---- models of what the application configures and of the policy functions
    def which(st, a):
        b, off = A.split(a); return b if b is not None and (b, HM['sz']) in st.mem else None
    def sa_free(A, fr, ins, st, args):
        bump(st, h.FREED); setcell(A, st, h.gh, h.LASTF, args[0])
        if not own[0] and not A.probe: A.report(fr, ins, st, 'owner', 'releases an element of a map that does not own its data')
        return [(st, L(0))]
    def part(o):
        def free(A, fr, ins, st, args):
            bump(st, o)
            nm = A.byid[args[0].one()].name[0] if isinstance(args[0], L) and args[0].one() is not None else None
            if not A.probe:
                if not own[0]: A.report(fr, ins, st, 'owner', 'releases data of a map that does not own it')
                if nm in ('key of', 'value of') and nm != ('key of' if o == h.KEYS else 'value of'): A.report(fr, ins, st, 'owner', 'hands the %s to the release function of the other' % nm.split()[0])
            return [(st, L(0))]
        return free
    def u_free(A, fr, ins, st, args):
        nm = A.byid[args[0].one()].name if isinstance(args[0], L) and args[0].one() is not None else (None,)
        if nm[0] in ('key of', 'value of', 'user data'):
            if nm[0] != 'user data': bump(st, h.KEYS if nm[0] == 'key of' else h.VALS)
            if not A.probe:
                if not own[0]: A.report(fr, ins, st, 'owner', 'releases data of a map that does not own it')
                if nm[0] == 'user data' or plain.get(nm[0]) is False: A.report(fr, ins, st, 'owner', 'releases with the allocator what belongs to the application')
        return [(st, L(0))]
    plain = {}
    def push(A, fr, ins, st, args):
        out = []
        b, off = A.split(args[2]); c = cell(A, st, b, off.c) if b is not None and off.const() else None
        if c is None: return None
        y = st.copy()
        if A.addeq(y, c):
            z = y.copy(); setcell(A, z, b, off.c, A.A(('queue entry of', b), 4096, 1 << 62, ptr=True)); bump(z, 16); out += [(z, L(0)), (y, L(FAIL))]
        y = st.copy()
        if A.assume(y, Cmp('ne', c, L(0), 64), True): out += [(y.copy(), L(0)), (y, L(FAIL))]
        return out
    def gone(y, m):
        c = cell(A, y, m, HM['sz']); A.addge(y, c + -1); setcell(A, y, m, HM['sz'], c + -1); bump(y, 0, -1)
        if h.pol: bump(y, 16, -1)
        if own[0]: bump(y, h.FREED)
    def pop(A, fr, ins, st, args):
        m = which(st, args[0])
        if m is None: return None
        y = st.copy(); gone(y, m); bump(y, 112)
        return [(y, L(0)), (st, L(FAIL))]
    def anyval(A, fr, ins, st, args): return [(st, A.retval(fr, ins))]
    strong = [False, None]
    def hashed(A, fr, ins, st, args):
        v = A.retval(fr, ins)
        if strong[0]: A.addge(st, v); A.addge(st, args[1] - v + -1)
        return [(st, v)]
    def defhash(A, fr, ins, st, args):
        # what it returns is looked at on its own below
        v = A.retval(fr, ins)
        if not A.eq0(st, args[0]): A.addge(st, v); A.addge(st, args[1] - v + -1)
        return [(st, v)]
    def resize(A, fr, ins, st, args):
        m = which(st, args[0])
        if m is None: return None
        y = st.copy(); t = A.atom(('obj', 'new buckets'), 1 << 12, 1 << 62, ptr=True); z = A.A(('size', 'new'), 2, 1 << 40); h.table.add(t)
        y.ext[t] = L(0, {z.one(): 8}); setcell(A, y, m, HM['hmap'], L(0, {t: 1})); setcell(A, y, m, HM['size'], z)
        return [(y, L(0)), (st, L(-1))]
    base = {'sa_free': sa_free, 'sa_key_free': part(h.KEYS), 'sa_val_free': part(h.VALS), 'u_free': u_free, 'sa_push': push, 'sa_pop': pop, 'sa_hash': hashed, '__f_hash': defhash, 'sa_comp': anyval, 'sa_pcy_cmp': anyval, 'u_log_write_ex': anyval, '__resize': resize}
    types = sorted(set(v for k, v in H.T.items() if not k.endswith('LAST')))
    # ---- what a policy sets up
    OPS = {}
    newf = fn('u_hmap_new')
    pols = sorted((v, k) for k, v in H.P.items() if not k.endswith('LAST') and '_OP_' not in k)
    PUT = None
    if newf is None: raise AnalysisError('u_hmap_new is gone')
    for v, k in pols:
        tag[0] = k; h.model = {'u_log_write_ex': anyval}; h.pol = False
        st = poly.St(); o = obj(st, 'options', structsize(H.mod, 'u_hmap_opts_s')); out = obj(st, 'out', 8); setcell(A, st, out, 0, L(0))
        setcell(A, st, o, HO['policy'], L(v), 4)
        for c in ('f_hash', 'f_comp', 'f_pcy_cmp'): setcell(A, st, o, HO[c], fptr('sa_' + c[2:]))
        setcell(A, st, o, HO['size'], L(64)); setcell(A, st, o, HO['max'], L(32)); setcell(A, st, o, HO['type'], L(types[0]), 4)
        some = False
        for x, rv in run(newf, st, [L(0, {o: 1}), L(0, {out: 1})]):
            y = can(x, rv, 0)
            if y is None: continue
            c = cell(A, y, out, 0); m = A.split(c)[0] if c is not None else None
            if m is None: continue
            some = True
            pu, po, op = (cell(A, y, m, HM['pcy'] + H.PC[q]) for q in ('push', 'pop', 'ops'))
            def named(z): return A.byid[z.one()].fn if z is not None and z.one() is not None else None
            if op is None or not op.const(): bad(newf, 'the policy operations are not set', y); continue
            OPS.setdefault(v, set()).add((named(pu), named(po), op.c))
            qf, ql = cell(A, y, m, HM['pcy'] + H.PC['queue']), cell(A, y, m, HM['sz']) if cell(A, y, m, HM['sz']) is not None else L(0) if ('zero', m) in y.mark else None
            if qf is None or not A.eq0(y, qf): bad(newf, 'the queue of a new map is not empty', y)
            if ql is None or not A.eq0(y, ql): bad(newf, 'a new map is not empty, its queue is', y)
        if not some: bad(newf, 'no map can be made with this policy')
    none = H.P['U_HMAP_PCY_NONE']
    if len(OPS.get(none, ())) != 1 or any(len(x) != 1 for x in OPS.values()): raise AnalysisError('policy set-up not understood: %s' % OPS)
    nops = list(OPS[none])[0]
    if nops[2] != 0: tag[0] = 'U_HMAP_PCY_NONE'; bad(newf, 'a map without policy keeps a queue')
    pushes, pops = set(), set()
    PUTBIT = None
    for v, k in pols:
        if v == none: continue
        (pu, po, op), = OPS[v]
        tag[0] = k
        if pu is None or po is None or isinstance(pu, str) or isinstance(po, str): bad(newf, 'no function keeps the queue for this policy'); continue
        PUTBIT = op if PUTBIT is None else PUTBIT & op
        pushes.add(pu); pops.add(po)
    if not PUTBIT: tag[0] = 'all policies'; bad(newf, 'no operation enters elements in the queue')
    opsets = sorted(set(list(x)[0][2] for v, x in OPS.items() if v != none))
    def setup(st, pol, options, ops, type, ffree=True, kt=None, vt=None, kf=True, vf=True, default=False, tg=''):
        h.pol = pol; own[0] = bool(options & OWN); strong[0] = bool(options & STRONG); plain.clear()
        m, o, n = H.new(st, tag=tg, policy=fifo if pol else none, options=options, type=type)
        A.addge(st, n + -(1 << 10))
        setcell(A, st, m, HM['pcy'] + H.PC['ops'], L(ops), 4)
        if not pol: setcell(A, st, m, HM['pcy'] + H.PC['queue'], L(0)); setcell(A, st, m, HM['pcy'] + H.PC['push'], L(0)); setcell(A, st, m, HM['pcy'] + H.PC['pop'], L(0))
        setcell(A, st, o, HO['f_free'], fptr('sa_free') if ffree else L(0))
        if kt is not None: setcell(A, st, o, HO['key_type'], L(kt), 4); setcell(A, st, o, HO['val_type'], L(vt), 4); plain['key of'] = kt != ptr; plain['value of'] = vt != ptr
        setcell(A, st, o, HO['f_key_free'], fptr('sa_key_free') if kf else L(0)); setcell(A, st, o, HO['f_val_free'], fptr('sa_val_free') if vf else L(0))
        if default: setcell(A, st, o, HO['f_hash'], fptr('__f_hash'))
        t = A.split(cell(A, st, m, HM['hmap']))[0]; h.table.add(t)
        return m, o, n
    fifo = [v for v, k in pols if v != none][0]; ptr = D['U_HMAP_OPTS_DATATYPE_POINTER']
    # ---- the functions that keep the queue
    tag[0] = 'queue functions'
    for f in sorted(pushes, key=lambda f: f.name):
        for had in (False, True):
            h.model = dict(base); del h.model['sa_push']; del h.model['sa_pop']; del h.model['u_free']
            st = poly.St(); m, o, n = setup(st, True, 0, PUTBIT or 1, types[0]); e = obj(st, 'element', structsize(H.mod, O))
            setcell(A, st, e, OB['pqe'], A.A(('queue entry of', e), 4096, 1 << 62, ptr=True) if had else L(0))
            tag[0] = 'element with an entry' if had else 'element without entry'
            for x, rv in run(f, st, [L(0, {m: 1}), L(0, {e: 1}), L(OB['pqe'], {e: 1})]):
                for y, w in cases(x, rv):
                    c = cell(A, y, e, OB['pqe']); net = g(y, 16)
                    if c is None: bad(f, 'the entry of the element is lost', y); continue
                    if had:
                        if not A.eq0(y, net): bad(f, 'the number of queue entries changes by %s' % A.show(net), y)
                        if not A.eq0(y, c - A.A(('queue entry of', e), 4096, 1 << 62, ptr=True)): bad(f, 'the element gets another queue entry', y)
                    elif w == 'ok':
                        if not A.eq0(y, net + -1): bad(f, 'succeeds and %s queue entries are linked' % A.show(net), y)
                        b, off = A.split(c)
                        ho = cell(A, y, b, H.Q['ho']) if b is not None else None
                        if ho is None or not A.eq0(y, ho - L(0, {e: 1})): bad(f, 'the queue entry does not refer to the element', y)
                        if A.eq0(y, c): bad(f, 'succeeds without a queue entry', y)
                    else:
                        if not A.eq0(y, net): bad(f, 'fails and %s queue entries stay linked' % A.show(net), y)
                        if not A.eq0(y, c): bad(f, 'fails and leaves the element a queue entry', y)
    tag[0] = 'queue functions'
    dels = [0]
    def m_del(A, fr, ins, st, args):
        m = which(st, args[0])
        if m is None: return None
        y = st.copy(); gone(y, m); bump(y, 112)
        return [(y, L(0)), (st, L(FAIL))]
    for f in sorted(pops, key=lambda f: f.name):
        h.model = dict(base, u_hmap_del=m_del)
        st = poly.St(); m, o, n = setup(st, True, OWN, PUTBIT or 1, types[0]); setcell(A, st, h.gh, 112, L(0), 16)
        back = obj(st, 'back', 8)
        for x, rv in run(f, st, [L(0, {m: 1}), L(0, {back: 1})]):
            for y, w in cases(x, rv):
                if not A.eq0(y, g(y, 112) - (1 if w == 'ok' else 0)): bad(f, '%s and %s queue entries and elements are discarded' % ('succeeds' if w == 'ok' else 'fails', A.show(g(y, 112))), y)
                if not A.eq0(y, g(y, 0) - g(y, 16)): bad(f, 'elements and queue entries do not go together', y)
    def keeps(x, o):
        b, off = A.split(o); c = cell(A, x, b, OB['pqe']) if b is not None else None
        return c is None or not A.eq0(x, c)
    # ---- operations
    optsets = [a | b | c for a in (0, OWN) for b in (0, NOOVER) for c in (0, STRONG)]
    maps = [(False, 0)] + [(True, o) for o in opsets]
    f = fn('u_hmap_put')
    if f:
        for (pol, ops), op, t, default, nullout in itertools.product(maps, optsets, types, (False, True), (False, True)):
            if default and op & STRONG or pol and ops != opsets[0] and op & STRONG or nullout and (default or op & STRONG): continue
            h.model = dict(base); tag[0] = 'policy %s, options %#x, type %d, %s hash%s' % (pol, op, t, 'default' if default else 'application', ', old element not asked for' if nullout else '')
            st = poly.St(); m, o, n = setup(st, pol, op, ops, t, default=default)
            e = obj(st, 'element', structsize(H.mod, O)); setcell(A, st, e, OB['pqe'], L(0)); back = obj(st, 'back', 8); setcell(A, st, h.gh, 112, L(0), 16)
            E = L(0, {e: 1})
            h.watch = [lambda st: g(st, 0), lambda st: g(st, 16), lambda st: g(st, h.FREED), lambda st: cell(A, st, e, OB['pqe']), lambda st: g(st, h.LASTO), lambda st: g(st, h.LASTQ)]
            for x, rv in run(f, st, [L(0, {m: 1}), E, L(0) if nullout else L(0, {back: 1})]):
                for y, w in cases(x, rv):
                    no, nq, fr_ = g(y, 0), g(y, 16), g(y, h.FREED); c = cell(A, y, e, OB['pqe'])
                    if not A.eq0(y, nq - (no if pol else 0)): bad(f, '%s: elements change by %s, queue entries by %s' % (w, A.show(no), A.show(nq)), y)
                    if c is not None and w != 'ok' and not A.eq0(y, c): bad(f, '%s: the element that was not taken keeps a queue entry' % w, y)
                    if c is not None and w == 'ok' and pol and A.eq0(y, c): bad(f, 'the element taken has no queue entry', y)
                    want = L(0) if not own[0] else {'ok': L(1) - no, 'exists': L(1), 'fail': -no, 'other': -no}[w]
                    if not A.eq0(y, fr_ - want): bad(f, '%s: %s element(s) released, %s to release' % (w, A.show(fr_), A.show(want)), y)
                    last, lo = g(y, h.LASTF), g(y, h.LASTO)
                    popped = not A.eq0(y, g(y, 112))
                    if own[0] and not popped and A.eq0(y, fr_ + -1) and not A.eq0(y, last - (E if w == 'exists' else lo)): bad(f, '%s: the element released is not the one taken out' % w, y)
                    lq = g(y, h.LASTQ)
                    if pol and not popped and w == 'ok' and not own[0] and A.eq0(y, no) and keeps(y, lo): bad(f, 'the element replaced still refers to a queue entry', y)
                    if pol and not popped and w == 'ok' and A.eq0(y, no) and not pair(A, y, lo, lq): bad(f, 'the queue entry removed is not that of the element replaced', y)
        h.watch = []
    f = fn('u_hmap_del')
    if f:
        for (pol, ops), op, t, nullout in itertools.product(maps, [q for q in optsets if not q & NOOVER], types, (False, True)):
            if nullout and op & STRONG: continue
            h.model = dict(base); tag[0] = 'policy %s, options %#x, type %d%s' % (pol, op, t, ', element not asked for' if nullout else '')
            st = poly.St(); m, o, n = setup(st, pol, op, ops, t); A.addge(st, n + -1); back = obj(st, 'back', 8); k = obj(st, 'key', 64)
            h.watch = [lambda st: g(st, 0)]
            for x, rv in run(f, st, [L(0, {m: 1}), L(0, {k: 1}), L(0) if nullout else L(0, {back: 1})]):
                for y, w in cases(x, rv):
                    no, nq, fr_ = g(y, 0), g(y, 16), g(y, h.FREED)
                    if not A.eq0(y, nq - (no if pol else 0)): bad(f, '%s: elements change by %s, queue entries by %s' % (w, A.show(no), A.show(nq)), y)
                    if not A.eq0(y, fr_ - (-no if own[0] else 0)): bad(f, '%s: %s element(s) released, %s taken out' % (w, A.show(fr_), A.show(-no)), y)
                    lo, lq = g(y, h.LASTO), g(y, h.LASTQ)
                    if w == 'ok' and pol and not pair(A, y, lo, lq): bad(f, 'the queue entry removed is not that of the element removed', y)
                    if w == 'ok' and own[0] and not A.eq0(y, g(y, h.LASTF) - lo): bad(f, 'the element released is not the one taken out', y)
                    if w == 'ok' and pol and not own[0] and keeps(y, lo): bad(f, 'the element handed back still refers to a queue entry', y)
                    if nullout: continue
                    b = cell(A, y, back, 0)
                    if w == 'ok' and not own[0] and (b is None or not A.eq0(y, b - lo)): bad(f, 'the element taken out is not handed back to its owner', y)
                    if w == 'ok' and own[0] and b is not None and not A.eq0(y, b): bad(f, 'hands out an element it releases', y)
        # how keys and values are released
        for kt, vt, kf, vf in itertools.product(sorted(set(D.values())), sorted(set(D.values())), (False, True), (False, True)):
            if kt != ptr and not kf or vt != ptr and not vf: continue
            h.model = dict(base); tag[0] = 'key type %d, value type %d' % (kt, vt)
            st = poly.St(); m, o, n = setup(st, True, OWN, opsets[0], types[0], False, kt, vt, kf, vf); A.addge(st, n + -1); k = obj(st, 'key', 64)
            for x, rv in run(f, st, [L(0, {m: 1}), L(0, {k: 1}), L(0)]):
                for y, w in cases(x, rv):
                    for nm, c, T, set_ in (('key', g(y, h.KEYS), kt, kf), ('value', g(y, h.VALS), vt, vf)):
                        want = 0 if w != 'ok' or T == ptr and not set_ else 1
                        if not A.eq0(y, c - want): bad(f, '%s: the %s is released %s time(s), not %d' % (w, nm, A.show(c), want), y)
        h.watch = []
    f = fn('u_hmap_get')
    if f:
        for (pol, ops), t in itertools.product(maps, types):
            h.model = dict(base); tag[0] = 'policy %s, type %d' % (pol, t)
            st = poly.St(); m, o, n = setup(st, pol, OWN, ops, t); back = obj(st, 'back', 8); k = obj(st, 'key', 64)
            for x, rv in run(f, st, [L(0, {m: 1}), L(0, {k: 1}), L(0, {back: 1})]):
                for y, w in cases(x, rv):
                    if not all(A.eq0(y, g(y, q)) for q in (0, 16, h.FREED, h.KEYS, h.VALS)): bad(f, 'looking up changes the elements or the queue entries or releases something', y)
    for name in ('u_hmap_clear', 'u_hmap_easy_clear', 'u_hmap_free'):
        f = fn(name)
        if not f: continue
        for (pol, ops), op in itertools.product(maps[:2], (0, OWN)):
            h.model = dict(base); tag[0] = 'policy %s, options %#x' % (pol, op)
            if name == 'u_hmap_free': h.model['u_hmap_opts_free'] = anyval
            st = poly.St(); m, o, n = setup(st, pol, op, ops, types[0])
            h.sums = [lambda st: g(st, 0) + g(st, h.FREED)] if own[0] else [lambda st: g(st, h.FREED)]
            for x, rv in run(f, st, [L(0, {m: 1})]):
                if not A.eq0(x, h.sums[0](x)): bad(f, 'elements taken out: %s, released: %s' % (A.show(-g(x, 0)), A.show(g(x, h.FREED))), x)
                qf = cell(A, x, m, HM['pcy'] + H.PC['queue'])
                if qf is None or not A.eq0(x, qf): bad(f, 'queue entries survive', x)
            h.sums = []
    f = fn('u_hmap_copy')
    if f:
        def m_put(A, fr, ins, st, args):
            m = which(st, args[0]); b, off = A.split(args[1])
            if m is None or b is None: return None
            def grow(y, n, q=None):
                c = cell(A, y, m, HM['sz']); setcell(A, y, m, HM['sz'], c + n); A.addge(y, -c + (1 << 40)); bump(y, 0, n)
                if h.pol: bump(y, 16, n)
                setcell(A, y, b, OB['pqe'], A.A(('queue entry of', b), 4096, 1 << 62, ptr=True) if h.pol else L(0))
            c = cell(A, st, b, OB['pqe'])
            if not A.probe and c is not None and not A.eq0(st, c): A.report(fr, ins, st, 'queue', 'an element that still has a queue entry of one map is put in another')
            y = st.copy(); grow(y, 1); z = st.copy(); grow(z, 0)
            return [(y, L(0)), (z, L(0)), (st.copy(), L(EXISTS)), (st, L(FAIL))]
        for (pol, ops) in maps[:2]:
            h.model = dict(base, u_hmap_put=m_put); tag[0] = 'policy %s' % pol
            st = poly.St(); m, o, n = setup(st, pol, 0, ops, types[0]); m2, o2, n2 = setup(st, pol, 0, ops, types[0], tg=' to')
            h.watch = [lambda st: g(st, 0), lambda st: g(st, 16)]
            h.sums = [lambda st: g(st, 16) - (g(st, 0) if pol else 0)]
            for x, rv in run(f, st, [L(0, {m2: 1}), L(0, {m: 1})]):
                if not A.eq0(x, h.sums[0](x)): bad(f, 'elements change by %s, queue entries by %s' % (A.show(g(x, 0)), A.show(g(x, 16))), x)
            h.sums = []; h.watch = []
    # ---- what is handed in
    for name in ('u_hmap_o_new', 'u_hmap_easy_put'):
        f = fn(name)
        if not f: continue
        for op, kt, vt in itertools.product((0, OWN), sorted(set(D.values())), sorted(set(D.values()))):
            def putm(A, fr, ins, st, args): return [(st.copy(), L(0)), (st.copy(), L(EXISTS)), (st, L(FAIL))]
            h.model = dict(base, u_hmap_put=putm); tag[0] = 'options %#x, key type %d, value type %d' % (op, kt, vt)
            st = poly.St(); m, o, n = setup(st, False, op, 0, types[0], True, kt, vt)
            k = A.atom(('user data', 'key'), 4096, 1 << 62, ptr=True); v = A.atom(('user data', 'value'), 4096, 1 << 62, ptr=True)
            st.ext[k] = L(1 << 20); st.cont = st.cont | {(k, L((1 << 20) - 1), L(0))}; st.ext[v] = L(1 << 20); st.cont = st.cont | {(v, L((1 << 20) - 1), L(0))}
            run(f, st, [L(0, {m: 1}), L(0, {k: 1}), L(0, {v: 1})])
    # ---- the hash function of the library
    f = fn('__f_hash')
    if f:
        tag[0] = 'default hash'; h.model = {'u_log_write_ex': anyval}
        st = poly.St(); k = obj(st, 'key', 1 << 20); st.cont = st.cont | {(k, L((1 << 20) - 1), L(0))}; n = A.A(('size', 'table'), 2, 1 << 40)
        for x, rv in run(f, st, [L(0, {k: 1}), n]):
            if not (A.ge0(x, rv) and A.ge0(x, n - rv + -1)): r.add(f.file, f.line, f.name, 'bucket', 'the bucket number is not below the size of the table', poly.lines(x.trace))
    r.cov['link_stores'] = sum(1 for x in h.used if x[2] > 0); r.cov['unlink_stores'] = sum(1 for x in h.used if x[2] < 0)
    if r.cov['link_stores'] < 4 or r.cov['unlink_stores'] < 4: raise AnalysisError('links not recognised: %s' % sorted(h.used))
    for u in sorted(h.used): r.sample('%s:%d %s' % (u[0], u[1], 'links' if u[2] > 0 else 'unlinks'))
    r.cov['policies'] = ['%s: push %s, pop %s, operations %#x' % (k, *(getattr(q, 'name', q) for q in list(OPS[v])[0][:2]), list(OPS[v])[0][2]) for v, k in pols if v in OPS]
    r.cov['bucket_accesses_proved'] = h.ok
    if h.ok < 4: raise AnalysisError('bucket accesses not seen')
    r.need('operations', 60)
    for v in A.reports.values():
        if v.cat in ('queue', 'owner', 'bounds'): r.add(v.file, v.line, v.fn, v.cat, v.msg, v.path)
    return r

def pair(A, st, o, q):
    """is q the entry that belongs to element o?"""
    b, off = A.split(o); i = q.one()
    if b is None or off != L(0) or i is None: return False
    n = A.byid[i].name
    return n[0] == 'queue entry of' and n[1] == b
