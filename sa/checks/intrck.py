"""C09: interrupted system calls."""
from ir import compile_all, AnalysisError, consts
import poly
from poly import L, Poly, Cmp
from checks.framework import Result
from checks.numck import Bounds, collect, cover, getf, cell, setcell, numeric

OK, INTR, FAIL, END = 0, 1, 2, 3        # how the last call ended
XFER = ('sa_xfer', 'read', 'write', 'recv', 'send', 'pread', 'pwrite')
OPEN = ('open', 'open64', 'openat')
WORD = {OK: 'a success', INTR: 'an interruption', FAIL: 'a failure', END: 'the end of file'}

class Calls(Bounds):
    """every blocking call is forked into what can come of it; what happened last is kept in cells of a ghost object"""
    def __init__(s, K): Bounds.__init__(s); s.K = K; s.gh = None; s.buf = None; s.len = None; s.calls = set(); s.timed = False
    def candidates(s, A, fr, h, entry, hd, defs):
        if s.gh is None: return []
        c = s.g(A, hd, 8); return [c, L(INTR) - c]
    def jkey(s, A, st):
        if s.gh is None: return 0
        return s.g(A, st, 8).key()
    def g(s, A, st, o):
        c = cell(A, st, s.gh, o); return c if c is not None else L(0)
    def seterr(s, A, st, lo, hi=None, tag=''):
        e = A.atom('errno', 1 << 12, 1 << 62, ptr=True)
        setcell(A, st, e, 0, L(lo) if hi is None else A.A(('errno', tag), lo, hi), 4)
    def fails(s, A, fr, ins, st, what, outs, intr=True, extra=()):
        """-1 with every class of errno"""
        for eno, how in (((s.K['EINTR'], INTR),) if intr else ()) + tuple((s.K[x], INTR) for x in extra) + ((None, FAIL),):
            n = st.copy()
            if eno is not None: s.seterr(A, n, eno)
            else:
                # any other error number: below, between or above the ones that mean "go on"
                special = sorted(set([s.K['EINTR']] * intr + [s.K[x] for x in extra]))
                lo = 1; spans = []
                for z in special + [4096]:
                    if z > lo: spans.append((lo, z - 1))
                    lo = z + 1
                for q, (a, b) in enumerate(spans):
                    m = st.copy(); s.seterr(A, m, a, b, (fr.ctx, ins.uid, q)); setcell(A, m, s.gh, 8, L(FAIL)); outs.append((m, L(-1)))
                continue
            setcell(A, n, s.gh, 8, L(how)); outs.append((n, L(-1)))
    def before(s, A, fr, ins, st, name):
        """a call after a failure or the end of file is a retry of what cannot be retried"""
        last = s.g(A, st, 8)
        if not A.probe:
            s.calls.add((fr.f.file, ins.line, ins.uid))
            for bad in (FAIL, END):
                x = st.copy()
                if A.assume(x, Cmp('eq', last, L(bad), 32), True):
                    A.report(fr, ins, st, 'retry', '%s is called again after %s' % (name, WORD[bad]))
    def call(s, A, fr, ins, st, name, args):
        if s.gh is None or name is None: return None
        outs = []
        if name in XFER and len(args) >= 3:
            s.before(A, fr, ins, st, name)
            done = s.g(A, st, 0)
            if s.buf is not None and not A.probe:
                if not A.eq0(st, args[1] - s.buf - done): A.report(fr, ins, st, 'position', '%s is given a place other than the buffer advanced by the amount already transferred' % name)
                if not A.ge0(st, s.len - done - args[2]): A.report(fr, ins, st, 'position', '%s is asked for more than what is left' % name)
                if not A.ge0(st, args[2] + -1): A.report(fr, ins, st, 'position', '%s is asked for nothing' % name)
                if not A.eq0(st, args[0] - s.fd): A.report(fr, ins, st, 'position', '%s works on another descriptor' % name)
            s.fails(A, fr, ins, st, name, outs)
            n = st.copy(); setcell(A, n, s.gh, 8, L(END)); outs.append((n, L(0)))
            k = A.fresh(fr, ins, 64, 'got'); 
            if not A.addge(st, k + -1) or not A.addge(st, args[2] - k): return outs
            setcell(A, st, s.gh, 8, L(OK)); setcell(A, st, s.gh, 0, done + k); outs.append((st, k))
            return outs
        if name in ('accept', 'accept4') or name in OPEN:
            s.before(A, fr, ins, st, name)
            s.fails(A, fr, ins, st, name, outs)
            setcell(A, st, s.gh, 8, L(OK)); fd = A.A(('fd', fr.ctx, ins.uid), 0, (1 << 31) - 1); setcell(A, st, s.gh, 16, fd); outs.append((st, fd))
            return outs
        if name == 'connect':
            s.before(A, fr, ins, st, name)
            last = s.g(A, st, 8); x = st.copy()
            if not A.probe and A.assume(x, Cmp('eq', last, L(INTR), 32), True): A.report(fr, ins, st, 'retry', 'connect is called again although the interrupted attempt goes on')
            s.fails(A, fr, ins, st, name, outs, extra=('EINPROGRESS',))
            setcell(A, st, s.gh, 8, L(OK)); outs.append((st, L(0)))
            return outs
        if name in ('select', 'poll', 'pselect', 'ppoll'):
            s.before(A, fr, ins, st, name)
            s.fails(A, fr, ins, st, name, outs)
            if s.timed:
                n = st.copy(); setcell(A, n, s.gh, 8, L(END)); outs.append((n, L(0)))
            setcell(A, st, s.gh, 8, L(OK)); outs.append((st, L(1)))
            return outs
        if name == 'sleep' and ins.res is not None:
            left = cell(A, st, s.gh, 24)
            if left is not None and not A.probe and not A.eq0(st, args[0] - left): A.report(fr, ins, st, 'position', 'sleep is not asked for the time that is left')
            n = st.copy(); setcell(A, n, s.gh, 8, L(INTR)); s.seterr(A, n, s.K['EINTR']); w = A.fresh(fr, ins, 32, 'left'); setcell(A, n, s.gh, 24, w)
            setcell(A, st, s.gh, 8, L(OK)); outs = [(st, L(0))]
            if A.addge(n, w + -1) and A.addge(n, args[0] - w): outs.append((n, w))
            return outs
        return None
        return None

@numeric
def c09(pid, tier):
    r = Result('Linear-inequality abstract interpretation of the wrappers around blocking calls. Every call is forked into success with any amount, end of file, interruption and every other error; ghost cells record the amount transferred and how the last call ended, and are carried through the loops like any other cell. Each call must ask for what is left at the place reached; no call may follow a failure or the end of file; no wrapper may return after an interruption; the result and the amount reported must be the ones recorded.')
    p = compile_all(); K = consts(['EINTR', 'EINPROGRESS'], ['errno.h']); h = Calls(K); A = Poly(p, h); roots = 0
    def start():
        st = poly.St(); gh = A.atom(('obj', 'ghost'), 1 << 12, 1 << 62, ptr=True); st.ext[gh] = L(64); h.gh = gh
        for o in (0, 8): setcell(A, st, gh, o, L(0))
        return st
    def way(A, st): return h.g(A, st, 8)
    def is_(x, e, v, w=32):
        y = x.copy(); return y if A.assume(y, Cmp('eq', e, L(v), w), True) else None
    def must(x, e, v): return A.eq0(x, e - v)
    def judge(f, res, xs):
        nonlocal roots
        roots += 1
        if not res: raise AnalysisError('%s never returns' % f.name)
        for x, rv in res:
            tr = poly.lines(x.trace)
            def bad(cat, msg): r.add(f.file, f.line, f.name, cat, msg, tr)
            xs(x, rv, bad)
    # transfers
    for name in ('u_io', 'u_read', 'u_write'):
        f = getf(p, name); st = start(); n = A.A(('len',), 0, 1 << 61); A.fixed |= set(n.t)
        b = A.atom(('obj', 'data'), 1 << 12, 1 << 62, ptr=True); st.ext[b] = n; fd = A.A(('descriptor',), 0, (1 << 31) - 1); A.fixed |= set(fd.t)
        h.buf = L(0, {b: 1}); h.len = n; h.fd = fd
        cases = [0]
        if name == 'u_io': cases = [0, 1, 2, 3]
        for case in cases:
            s0 = st.copy(); args = []; cn = ce = None
            if name == 'u_io':
                fn = A.A(('fn', 'sa_xfer'), 4096, 1 << 47, ptr=True, fn='sa_xfer')
                def out(nm, sz):
                    a = A.atom(('obj', nm), 1 << 12, 1 << 62, ptr=True); s0.ext[a] = L(sz); setcell(A, s0, a, 0, A.A((nm, 'before'), -5, 5), sz); return a
                if case & 1: cn = out('amount', 8)
                if case & 2: ce = out('eof', 4)
                args = [fn, fd, L(0, {b: 1}), n, L(0, {cn: 1}) if cn is not None else L(0), L(0, {ce: 1}) if ce is not None else L(0)]
            else: args = [fd, L(0, {b: 1}), n]
            def xs(x, rv, bad):
                done = h.g(A, x, 0); w = way(A, x)
                if is_(x, w, INTR) is not None: bad('interrupted', 'returns after an interruption instead of going on')
                full = x.copy(); full = full if A.addge(full, done - n) else None
                part = x.copy(); part = part if A.addge(part, n - done + -1) else None
                if name == 'u_io':
                    if full is not None and is_(full, rv, 0) is None: bad('result', 'a complete transfer is reported as a failure')
                    if full is not None:
                        y = full.copy()
                        for z in A.assume(y, Cmp('ne', rv, L(0), 32), True): bad('result', 'a complete transfer can be reported as a failure')
                    if part is not None:
                        y = is_(part, rv, 0)
                        if y is not None: bad('result', 'an incomplete transfer can be reported as a success')
                    if cn is not None:
                        c = cell(A, x, cn, 0)
                        if c is None or not A.eq0(x, c - done): bad('amount', 'the amount reported (%s) is not the amount transferred (%s)' % (A.show(c) if c is not None else '?', A.show(done)))
                    if ce is not None:
                        c = cell(A, x, ce, 0)
                        y = is_(x, w, END)
                        if c is None: bad('eof', 'the end-of-file flag is lost')
                        else:
                            if y is not None and is_(y, c, 0) is not None: bad('eof', 'the end of file is not reported')
                            for v in (OK, FAIL):
                                y = is_(x, w, v)
                                if y is not None:
                                    for z in A.assume(y.copy(), Cmp('ne', c, L(0), 32), True): bad('eof', 'the end of file is reported after %s' % WORD[v])
                elif name == 'u_write':
                    if full is not None and not A.eq0(full, rv - n): bad('result', 'a complete write does not return its size')
                    if part is not None and not A.eq0(part, rv + 1): bad('result', 'an incomplete write does not return -1')
                else:
                    if full is not None and not A.eq0(full, rv - n): bad('result', 'a complete read does not return its size')
                    if part is not None:
                        y = is_(part, w, FAIL)
                        if y is not None and not A.eq0(y, rv + 1): bad('result', 'a failed read does not return -1')
                        y = is_(part, w, END)
                        if y is not None and not A.eq0(y, rv - done): bad('result', 'a read ended by the end of file does not return the amount read (%s rather than %s)' % (A.show(rv), A.show(done)))
            judge(f, A.root(f, [s0], args), xs)
    h.buf = None
    # descriptors
    others = {}
    for f in p.allfns:
        for i in f.calls():
            nm = p.calleename(i)
            if nm in ('accept', 'accept4', 'connect') or nm in OPEN and f.mod.name in ('config_fs', 'config'): others.setdefault(f, set()).add(nm)
            elif nm in XFER and f.name not in ('u_io', 'u_read', 'u_write'): others.setdefault(f, set()).add(nm)
    r.count('wrappers_found', len(others))
    for f, names in sorted(others.items(), key=lambda x: x[0].name):
        timed = [False, True] if any(t.k == 'ptr' and k == 3 for k, (t, nm, bv) in enumerate(f.params)) and 'connect' in names else [False]
        for h.timed in timed:
            st = start(); args = []
            for k, (t, nm, bv) in enumerate(f.params):
                if t.k == 'ptr' and k == 3 and 'connect' in names and not h.timed: args.append(L(0)); continue
                if t.k == 'ptr':
                    a = A.atom(('obj', f.name, k), 1 << 12, 1 << 62, ptr=True); args.append(L(0, {a: 1}))
                elif 'connect' in names and k == 0: args.append(A.A(('socket', f.name), -1, 1023))     # others cannot be waited for
                else: args.append(A.intatom(('arg', f.name, k), t))
            def xs(x, rv, bad):
                w = way(A, x)
                if is_(x, w, INTR) is not None and not (h.timed and is_(x, rv, 0) is None): bad('interrupted', 'returns after an interruption instead of going on')
                y = is_(x, w, FAIL)
                if y is not None and rv is not None:
                    fd = names & ({'accept', 'accept4'})
                    if fd and not A.ge0(y, -rv + -1) or not fd and is_(y, rv, 0) is not None: bad('result', 'a failure is not reported')
                y = is_(x, w, END)
                if y is not None and rv is not None and is_(y, rv, 0) is not None: bad('result', 'running out of time is not reported')
                if names & {'accept', 'accept4'}:
                    y = is_(x, w, OK); c = cell(A, x, h.gh, 16)
                    if y is not None and c is not None and not A.eq0(y, rv - c): bad('result', 'the descriptor accepted is not returned')
            judge(f, A.root(f, [st], args), xs)
    f = p.functions.get('u_sleep')
    if f is not None:
        st = start(); n = A.A(('seconds',), 0, (1 << 31) - 1); A.fixed |= set(n.t); setcell(A, st, h.gh, 24, n)
        def xs(x, rv, bad):
            if is_(x, way(A, x), INTR) is not None and is_(x, rv, 0) is not None: bad('interrupted', 'returns after an interruption instead of going on')
        judge(f, A.root(f, [st], [n]), xs)
    r.count('wrappers_interpreted', roots); r.count('blocking_call_sites', len(h.calls))
    collect(r, A, ('retry', 'position')); cover(r, A, h)
    r.need('wrappers_interpreted', 6); r.need('blocking_call_sites', 4)
    return r
