"""C29: every loop changes, on every trip, something that its exit condition depends on."""
import signal
from concurrent.futures import ProcessPoolExecutor
from ir import compile_all, AnalysisError, sizeof, fieldoff
import poly, engine, models
from poly import L, Poly
from checks.framework import Result

# platform calls whose result says how far they got: (results that mean no progress, what they are)
IN = {'read', 'pread', 'fread', 'fgets', 'fgetc', 'getc', 'getchar', 'getline', 'getdelim', 'recv', 'recvfrom', 'recvmsg', 'readv', 'write', 'pwrite', 'fwrite', 'send', 'sendto', 'sendmsg', 'writev',
      'readdir', 'wait', 'wait3', 'wait4', 'waitpid', 'fscanf', 'accept', 'accept4', 'getopt', 'getopt_long'}
CHARS = {'fgetc', 'getc', 'getchar', 'wait', 'wait3', 'wait4', 'waitpid', 'accept', 'accept4', 'getopt', 'getopt_long'}          # zero is an answer
UNS = {'fread', 'fwrite', 'fgets', 'readdir'}
FMT = {'snprintf', 'vsnprintf', 'vprintf', 'printf', 'fprintf', 'vfprintf', 'u_snprintf'}
SAME = {'strchr', 'strrchr', 'strstr', 'strpbrk', 'memchr', 'index', 'rindex'}      # may give back their argument
BLOCK = {'select', 'poll', 'nanosleep', 'sleep', 'usleep', 'connect', 'epoll_wait', 'pselect', 'close', 'open', 'sem_wait', 'sigsuspend', 'pause', 'clock_nanosleep', 'waitid', 'fcntl', 'ioctl', 'dup2', 'flock'} | IN
OUT = {'llvm.memcpy': 0, 'llvm.memmove': 0, 'llvm.memset': 0, 'memcpy': 0, 'memmove': 0, 'memset': 0}
ALL = frozenset('-0+')
AGAIN = {4, 11, 115}

def strip(p, f, v):
    """through conversions that keep sign and zero"""
    while v[0] == '%':
        i = f.defs.get(v[1])
        if i is None or i.op not in ('zext', 'sext', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr') : break
        v = i.a[0]
    return v

class Effects:
    """which members of structures, and which objects handed in by pointer, functions read and may write"""
    def __init__(s, p):
        s.p = p; s.rd = {}; s.wr = {}
        fs = [f for f in p.allfns if not f.decl and f.blocks]
        for f in fs: s.rd[f.key] = set(); s.wr[f.key] = set()
        ch = True
        while ch:
            ch = False
            for f in fs:
                r, w = s.rd[f.key], s.wr[f.key]; n = len(r) + len(w)
                for i in f.insts():
                    if i.op == 'load': r |= s.place(f, i.a[0])
                    elif i.op == 'store': w |= s.place(f, i.a[1])
                    elif i.op == 'call':
                        r |= s.callrd(f, i); w |= s.callwr(f, i)
                for x in (r, w):
                    for k in [k for k in x if k[0] == 'al']: x.discard(k)
                if len(r) + len(w) != n: ch = True
    def place(s, f, v, d=0):
        """keys of the location an address denotes"""
        path = ()
        while True:
            if v[0] == 'g': return {('g', v[1])}
            if v[0] == 'cgep': return s.place(f, v[2], d + 1) if d < 6 else set()
            if v[0] != '%': return set()
            k = next((n for n, q in enumerate(f.params) if q[1] == v[1]), None)
            if k is not None: return {('arg', k)}
            i = f.defs.get(v[1])
            if i is None: return set()
            if i.op == 'gep':
                t = i.aux
                if t.k == 'struct':
                    key = []
                    for x in i.a[2:]:
                        if x[0] != 'c' or t.k != 'struct': break
                        key.append(x[1]); t = t.elems[x[1]]
                    if key: return {('f', getattr(i.aux, 'name', None) or str(i.aux), tuple(key))}
                v = i.a[0]; continue
            if i.op in ('bitcast', 'addrspacecast'): v = i.a[0]; continue
            if i.op == 'alloca': return {('al', i.uid)}
            if i.op in ('phi', 'select') and d < 4:
                o = set()
                for x in ([x for x, l in i.a] if i.op == 'phi' else i.a[1:]): o |= s.place(f, x, d + 1)
                return o
            if i.op == 'load':
                # what a member points to
                return {('*',) + k for k in s.place(f, i.a[0], d + 1) if k[0] != '*'} if d < 4 else set()
            return set()
    def through(s, f, i, keys):
        o = set()
        for k in keys:
            if k[0] == 'arg':
                if k[1] < len(i.a): o |= s.place(f, i.a[k[1]])
            elif k[0] == '*' and k[1] == 'arg':
                if k[2] < len(i.a): o |= {('*',) + x for x in s.place(f, i.a[k[2]]) if x[0] != '*'}
            else: o.add(k)
        return o
    def callrd(s, f, i):
        g = s.p.callee(i)
        if g is None or g.decl or g.key not in s.rd:
            o = set()
            for a in i.a:
                if a[0] == '%': o |= s.place(f, a)
            return set(k for k in o if k[0] in ('al', 'f', 'arg'))
        return s.through(f, i, s.rd[g.key])
    def callwr(s, f, i):
        g = s.p.callee(i); n = s.p.calleename(i) or ''
        if g is not None and not g.decl and g.key in s.wr: return s.through(f, i, s.wr[g.key])
        for q, k in OUT.items():
            if n == q or n.startswith(q + '.'): return s.place(f, i.a[k])
        if n.startswith('llvm.'): return set()
        o = set()
        for a in i.a:
            if a[0] == '%':
                for k in s.place(f, a):
                    if k[0] in ('al', 'f'): o.add(k)      # the platform may store through what it is given
        return o

def always(p, f, c):
    """a comparison that can only go one way: True, False or None"""
    i = f.defs.get(c[1]) if c[0] == '%' else None
    if i is None or i.op != 'icmp': return None
    a, b = i.a
    if b[0] != 'c': return None
    x = f.defs.get(a[1]) if a[0] == '%' else None
    n = b[1]; pr = i.aux[0]
    if pr in ('uge',) and n == 0: return True
    if pr in ('ult',) and n == 0: return False
    if x is not None and x.op == 'zext':
        q = f.defs.get(x.a[0][1]) if x.a[0][0] == '%' else None
        w = getattr(q.ty, 'w', None) if q is not None else None
        if w and w <= 32:
            hi = (1 << w) - 1
            if pr in ('sge', 'uge') and n <= 0 or pr in ('sle', 'ule') and n >= hi or pr in ('slt', 'ult') and n > hi or pr in ('sgt', 'ugt') and n < 0: return True
            if pr in ('slt', 'ult') and n <= 0 or pr in ('sgt', 'ugt') and n >= hi: return False
    return None

class Loop:
    def __init__(s, p, ef, f, h, body):
        s.p = p; s.ef = ef; s.f = f; s.h = h; s.body = body; s.hb = f.blocks[h]
        s.hphi = [ph for ph in s.hb.phis]; s.slice()
    def inside(s, v): return v[0] == '%' and v[1] in s.f.defs and s.f.defs[v[1]].blk.name in s.body
    def slice(s):
        f = s.f; S = set(); R = set(); work = []; s.exits = 0; s.links = False
        for n in s.body:
            b = f.blocks[n]; t = b.insts[-1]
            if any(x.name not in s.body for x in b.succs):
                if t.op == 'br' and len(t.aux) == 2:
                    k = always(s.p, f, t.a[0])
                    if k is not None and b.succs[0 if k else 1].name in s.body: continue
                s.exits += 1
                work += [v for v in t.a]
        while work:
            v = work.pop()
            if not (isinstance(v, tuple) and v[0] == '%') or v in S: continue
            i = f.defs.get(v[1])
            if i is None or i.blk.name not in s.body: continue
            S.add(v)
            if i.op == 'phi':
                for x, l in i.a:
                    if l in s.body or i.blk.name != s.h: work.append(x)
                if i.blk.name != s.h:
                    # what decides where the value comes from
                    seen = set(); w = [l for x, l in i.a if l in s.body]; dom = s.idom(i.blk.name)
                    while w:
                        y = w.pop()
                        if y in seen or y not in s.body: continue
                        seen.add(y); t = f.blocks[y].insts[-1]; work += [x for x in t.a]
                        if y != dom: w += [q.name for q in f.blocks[y].preds]
                else:
                    for x, l in i.a:
                        if l in s.body:
                            t = f.blocks[l].insts[-1]; work += [y for y in t.a]
            elif i.op == 'load':
                R |= s.ef.place(f, i.a[0]); work.append(i.a[0])
                if i.ty.k == 'ptr' and any(k[0] == 'f' for k in s.ef.place(f, i.a[0])): s.links = True
            elif i.op == 'call': R |= s.ef.callrd(f, i); work += [x for x in i.a if isinstance(x, tuple)]
            else: work += [x for x in i.a if isinstance(x, tuple)]
        s.S = S; s.R = set(R)
        s.track = set()
        for v in S:
            i = f.defs[v[1]]
            if i.op == 'call': s.track.add(v)
            elif i.op in ('add', 'sub', 'gep'):
                for x in (i.a[1:] if i.op == 'gep' else i.a):
                    x = strip(s.p, f, x)
                    if x[0] == '%' and x[1] in f.defs and f.defs[x[1]].op != 'phi': s.track.add(x)
        for n in s.body:
            for i in f.blocks[n].insts:
                if i.op == 'call' and (s.p.calleename(i) or '') in (IN | FMT) and i.res is not None: s.track.add(('%', i.res))
    def idom(s, n):
        d = dominators(s.f)
        return d.get(n)

    # ---- one state: statuses of phis and facts about tracked values
    def status(s, v, ph, facts, d=0):
        """('q',hdr) the value of that header phi; ('c',n) constant; 'new' changed; 'inv'"""
        f = s.f
        if v[0] == 'c' and isinstance(v[1], int): return ('c', v[1])
        if v[0] in ('null', 'zero'): return ('c', 0)
        if v[0] != '%': return 'inv'
        if v in ph: return ph[v]
        i = f.defs.get(v[1])
        if i is None or i.blk.name not in s.body or d > 12: return 'inv'
        st = lambda x: s.status(x, ph, facts, d + 1)
        o = i.op
        if o in ('zext', 'sext', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'trunc', 'addrspacecast'): return st(i.a[0])
        if o in ('add', 'sub', 'gep'):
            base = st(i.a[0]); xs = i.a[1:]
            if o == 'add' and base in ('inv',) or o == 'add' and i.a[0][0] == 'c': base = st(i.a[1]); xs = (i.a[0],)
            if base == 'inv' : return 'inv' if all(st(x) == 'inv' or st(x)[0] == 'c' for x in xs) else 'new' if any(st(x) == 'new' for x in xs) else 'inv'
            if base == 'new': return 'new'
            amt = []
            for x in xs:
                c = x if x[0] == 'c' else None
                if c is not None: amt.append(c[1] != 0); continue
                t = st(x)
                if s.shifted(x): amt.append(True); continue
                if t != 'inv' and t[0] == 'c': amt.append(t[1] != 0); continue
                y = strip(s.p, f, x); fs = facts.get(y, ALL)
                # a difference of pointers or a negated amount
                amt.append('0' not in fs)
            if any(amt): return 'new' if base[0] != 'c' else 'new'
            return base
        if o in ('mul', 'udiv', 'sdiv', 'lshr', 'ashr', 'shl', 'urem', 'srem', 'and', 'or', 'xor'):
            a, b = st(i.a[0]), st(i.a[1])
            if a == 'new' or b == 'new': return 'new'
            if a != 'inv' and a[0] == 'q':
                # a remainder or a mask may leave the value as it is, so may an unknown factor or shift
                if o in ('urem', 'srem', 'and', 'or') or i.a[1][0] != 'c' or i.a[1][1] in (0, 1) and not (o in ('xor', 'lshr', 'ashr', 'shl') and i.a[1][1] == 1): return a
                return 'new'
            if b != 'inv' and b[0] == 'q': return b if o in ('urem', 'srem', 'and', 'or') or i.a[0][0] != 'c' or i.a[0][1] in (0, 1) else 'new'
            return 'inv'
        if o == 'load':
            a = st(i.a[0])
            if a == 'new' or (a != 'inv' and a[0] == 'q'): return 'new'
            k = s.ef.place(f, i.a[0])
            return ('ld', tuple(sorted(map(str, k)))) if False else 'inv'
        if o == 'call':
            g = s.p.callee(i); n = s.p.calleename(i) or ''
            if n in SAME: return st(i.a[0])
            if n in IN: return 'new' if s.good(n, facts.get(v, ALL)) else 'inv'
            ss = [st(x) for x in i.a if isinstance(x, tuple)]
            if any(x == 'new' or (x != 'inv' and x[0] == 'q') for x in ss): return 'new'
            if g is not None and not g.decl and g.key in s.ef.wr: return 'new' if s.ef.rd[g.key] else 'inv'
            return 'new'
        if o == 'select':
            a, b = st(i.a[1]), st(i.a[2])
            return 'new' if a == 'new' and b == 'new' else b if a == 'new' else a
        if o in ('icmp', 'fcmp'): return 'inv'
        return 'inv'
    def shifted(s, x):
        """a constant shifted left by an amount that the code keeps below a limit"""
        f = s.f; i = f.defs.get(strip(s.p, f, x)[1]) if x[0] == '%' else None
        if i is None or i.op != 'shl' or i.a[0][0] != 'c' or not i.a[0][1]: return False
        y = f.defs.get(strip(s.p, f, i.a[1])[1]) if i.a[1][0] == '%' else None
        if i.a[1][0] == 'c': return True
        if y is None or y.op != 'load': return False
        k = s.ef.place(f, y.a[0])
        for j in f.insts():
            if j.op == 'icmp' and j.a[1][0] == 'c' and 0 < j.a[1][1] < 57 and j.a[0][0] == '%':
                z = f.defs.get(strip(s.p, f, j.a[0])[1]) if strip(s.p, f, j.a[0])[0] == '%' else None
                if z is not None and z.op == 'load' and s.ef.place(f, z.a[0]) & k: return True
        return False
    def good(s, n, fs):
        return ('-' not in fs or n in UNS) and (n in CHARS or '0' not in fs)

    def refine(s, c, taken, ph, facts):
        """facts after a branch, None: the edge cannot be taken"""
        f = s.f
        neg = not taken
        while c[0] == '%':
            i = f.defs.get(c[1])
            if i is None: return facts
            if i.op == 'xor' and i.a[1][0] == 'c' and i.a[1][1] in (1, -1, True): c = i.a[0]; neg = not neg; continue
            break
        if c[0] == 'c': return facts if bool(c[1]) != neg else None
        if c[0] != '%': return facts
        st = ph.get(c)
        if st is not None and st != 'inv' and st[0] == 'c': return facts if bool(st[1]) != neg else None
        if i.op == 'phi' or i.op != 'icmp': return facts
        pr = i.aux[0]; a, b = i.a
        if a[0] == 'c' or a[0] == 'null': a, b = b, a; pr = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(pr, pr)
        if neg: pr = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}[pr]
        n = b[1] if b[0] == 'c' else 0 if b[0] in ('null', 'zero') else None
        if n is None: return facts
        sa = s.status(a, ph, facts)
        if sa != 'inv' and sa[0] == 'c':
            x = sa[1]; ok = {'eq': x == n, 'ne': x != n}.get(pr)
            if ok is None: ok = {'lt': x < n, 'le': x <= n, 'gt': x > n, 'ge': x >= n}[pr[1:]]
            return facts if ok else None
        y = a
        while y[0] == '%':
            q = f.defs.get(y[1])
            if q is None or q.op not in ('zext', 'sext', 'bitcast', 'freeze', 'trunc'): break
            y = q.a[0]
        if sa != 'inv' and sa[0] == 'q': y = ('%', sa[1])
        i2 = f.defs.get(y[1]) if y[0] == '%' else None
        if i2 is not None and i2.op == 'load' and pr == 'eq' and n in AGAIN:
            z = f.defs.get(i2.a[0][1]) if i2.a[0][0] == '%' else None
            if z is not None and z.op == 'call' and s.p.calleename(z) == '__errno_location':
                facts = dict(facts); facts['again'] = True; return facts
        if y not in s.track and (sa == 'inv' or sa[0] != 'q'): return facts
        cur = facts.get(y, ALL); keep = set()
        if i2 is not None and i2.op == 'call' and (s.p.calleename(i2) or '') in UNS: cur = cur - {'-'}
        for k in cur:
            lo, hi = {'-': (-(1 << 63), -1), '0': (0, 0), '+': (1, 1 << 64)}[k]
            if pr == 'eq': ok = lo <= n <= hi
            elif pr == 'ne': ok = not (lo == hi == n) and not (k == '-' and n == -1)
            elif pr in ('slt', 'sle', 'sgt', 'sge'): ok = {'slt': lo < n, 'sle': lo <= n, 'sgt': hi > n, 'sge': hi >= n}[pr]
            elif pr in ('ult', 'ule'): ok = k != '-' and (lo < n or pr == 'ule' and lo <= n)
            else: ok = k == '-' or (hi > n or pr == 'uge' and hi >= n)
            if ok: keep.add(k)
        if not keep: return None
        facts = dict(facts); facts[y] = frozenset(keep); return facts

    def search(s):
        """a cycle of trips without progress, as a list of lines, or None; besides, results that must end the loop"""
        f = s.f; s.badres = []
        init = {('%', q.res): ('q', q.res) for q in s.hphi}
        relevant = [q for q in s.hphi if ('%', q.res) in s.S]
        color = {}; s.trips = 0; s.states = 0
        def step(state):
            """(next state, line) after one block"""
            n, php, fac, mem = state
            b = f.blocks[n]; ph = dict(php); facts = dict(fac)
            for i in b.insts:
                if i.op == 'call' and i.res is not None and ('%', i.res) in s.track: facts.pop(('%', i.res), None); facts.pop('again', None) if (s.p.calleename(i) or '') in BLOCK else None
                if i.op == 'store':
                    pl = s.ef.place(f, i.a[1])
                    # the element before is told through its own link
                    if pl & s.R or s.links and i.a[0][0] in ('%', 'c') and any(k[0] == '*' and k[1] == 'f' for k in pl): mem = True
                elif i.op == 'call':
                    g = s.p.callee(i); nm = s.p.calleename(i) or ''
                    if not nm.startswith('llvm.dbg') and nm not in BLOCK:
                        w = s.ef.callwr(f, i)
                        if w & s.R or s.links and any(k[0] == '*' and k[1] == 'f' for k in w): mem = True
                    if nm == '' or s.p.callee(i) is None and not nm:
                        # a callback: its answer decides
                        if i.res is not None and ('%', i.res) in s.S and not s.amount(i): mem = True
                    if nm in BLOCK: facts = {k: v for k, v in facts.items() if k != 'again'}
            t = b.insts[-1]; outs = []
            for k, x in enumerate(b.succs):
                if x.name not in s.body: continue
                fa = facts
                if t.op == 'br' and len(t.aux) == 2: fa = s.refine(t.a[0], k == 0, ph, facts)
                elif t.op == 'switch':
                    sv = s.status(t.a[0], ph, facts)
                    if sv != 'inv' and sv[0] == 'c':
                        vals = [c for c, l in t.aux[1]]
                        if k == 0 and sv[1] in vals or k > 0 and sv[1] != vals[k - 1]: fa = None
                if fa is None: continue
                np = dict(ph)
                for q in x.phis:
                    v = next((v for v, l in q.a if l == b.name), None)
                    np[('%', q.res)] = s.status(v, ph, fa) if v is not None else 'inv'
                if x.name == s.h:
                    s.trips += 1
                    s.end(ph, fa, b)
                    prog = mem or fa.get('again') or any((z := np[('%', q.res)]) == 'new' or (z != 'inv' and z[0] == 'q' and z[1] != q.res) for q in relevant)
                    if not prog:
                        for v in s.S:
                            i = f.defs[v[1]]
                            if i.op == 'call' and v in fa and (nm := s.p.calleename(i) or '') in IN and s.good(nm, fa[v]): prog = True
                            elif i.op == 'call' and (s.p.calleename(i) or '') in IN and nm_eof(s.p, i): prog = True
                    if prog: continue
                    np = {k: (v if k in init else 'inv') for k, v in np.items() if k in init}
                    outs.append(((x.name, frozenset(np.items()), frozenset(), False), t.line)); continue
                np = {k: v for k, v in np.items()}
                outs.append(((x.name, frozenset(np.items()), frozenset(fa.items()), mem), t.line))
            return outs
        start = (s.h, frozenset(init.items()), frozenset(), False)
        # depth first: a state reached again on the stack is an endless run
        stack = [(start, None, 0)]; on = {start: 0}; path = [(start, s.hb.insts[0].line)]; its = [iter(step(start))]; done = set()
        while its:
            nx = next(its[-1], None)
            if nx is None:
                its.pop(); q, _ = path.pop(); on.pop(q, None); done.add(q); continue
            q, ln = nx
            s.states += 1
            if s.states > 20000: raise AnalysisError('loop %s:%d in %s: too many paths' % (f.file, s.hb.insts[0].line, f.name))
            if q in on:
                i0 = on[q]
                if any(y[0][0] == s.h for y in path[i0:]): return [l for y, l in path[i0:]] + [ln]
                continue
            if q in done: continue
            on[q] = len(path); path.append((q, ln)); its.append(iter(step(q)))
        return None
    def amount(s, i):
        """is the result of the call an amount that a loop variable moves by?"""
        v = ('%', i.res)
        for x in s.S:
            d = s.f.defs[x[1]]
            if d.op in ('add', 'sub') and v in [strip(s.p, s.f, y) for y in d.a]: return True
        return False
    def end(s, ph, facts, b):
        """results that may not lead back to the head of the loop"""
        f = s.f
        for v in facts:
            if v == 'again' or v[0] != '%': continue
            i = f.defs[v[1]]
            if i.op != 'call': continue
            n = s.p.calleename(i) or ''
            if n in FMT and facts[v] == frozenset('-'): s.badres.append((i, n, 'a negative'))
            if n in IN and facts[v] == frozenset('-') and not facts.get('again'): s.badres.append((i, n, 'a negative'))

def nm_eof(p, i): return False

_dom = {}
def dominators(f):
    if f.key in _dom: return _dom[f.key]
    c = poly.CFG(f); order = [b.name for b in c.blocks]; idx = c.rpo; d = {order[0]: order[0]}; ch = True
    while ch:
        ch = False
        for n in order[1:]:
            new = None
            for q in f.blocks[n].preds:
                if q.name not in d or q.name not in idx: continue
                if new is None: new = q.name
                else:
                    a, b = q.name, new
                    while a != b:
                        while idx[a] > idx[b]: a = d[a]
                        while idx[b] > idx[a]: b = d[b]
                    new = a
            if new is not None and d.get(n) != new: d[n] = new; ch = True
    _dom[f.key] = d; return d

class Trips:
    """strict growth on every trip, in the linear-inequality domain"""
    def __init__(s): s.lex = {}; s.obj = None; s.keep = None; s.rec = set(); s.n = 0; s.bad = {}; s.only = None; s.root = None
    def access(s, A, fr, ins, st, b, off, size, kind): pass
    def jkey(s, A, st): return ()
    def trips(s, A, fr, h, hd, defs, back):
        if s.root is not None and fr.f is not s.root: return
        line = next((i.line for i in h.insts if i.line), fr.f.line)
        for x in back:
            m = A.remap(fr, x, defs); s.n += 1
            if x.bottom if hasattr(x, 'bottom') else False: continue
            if not any(A.ge0(x, m[a] - L(0, {a: 1}) + -1) or A.ge0(x, L(0, {a: 1}) - m[a] + -1) for a, v0, w in defs if w[0] != 'x' and a in m):
                s.bad.setdefault((fr.f.file, line, fr.f.name), poly.lines(x.trace))
    def call(s, A, fr, ins, st, name, args):
        g = A.prog.callee(ins)
        if g is None or g.decl or name in A.models: return None
        ks = [k for k in range(len(args)) if (g.key, k) in s.lex and isinstance(args[k], L) and A.split(args[k]) == (s.obj, L(0))] if s.obj is not None else []
        if ks:
            if g.file.endswith('lexer.c') or g.key not in s.rec: return None
            return s.keep(A, fr, ins, st, name, args)
        if s.obj is None and g.file in (s.only or ()): return None
        from checks import bufck
        return None if bufck.small(g) else A.unknown(fr, ins, st, name, args)

def lexers(p):
    """(function, parameter) pairs: the parameter is the lexer"""
    S = set()
    for f in p.modules['lexer'].functions.values():
        if not f.decl and f.params and f.params[0][0].k == 'ptr' and f.name != 'u_lexer_new': S.add((f.key, 0))
    ch = True
    while ch:
        ch = False
        for f in p.allfns:
            if f.decl: continue
            ix = {('%', q[1]): k for k, q in enumerate(f.params)}
            for i in f.calls():
                g = p.callee(i)
                if g is None or g.decl: continue
                for j, a in enumerate(i.a):
                    if a in ix and (g.key, j) in S and (f.key, ix[a]) not in S: S.add((f.key, ix[a])); ch = True
    return S

def reaches(p):
    e = {}
    for f in p.allfns:
        if not f.decl: e[f.key] = set(g.key for g in (p.callee(i) for i in f.calls()) if g is not None and not g.decl)
    rec = set()
    for k in e:
        seen = set(); w = list(e[k])
        while w:
            x = w.pop()
            if x in seen: continue
            seen.add(x); w += e.get(x, ())
        if k in seen: rec.add(k)
    return rec

JOBS = {}
def one(job):
    p = JOBS['p']; kind, key = job; f = next(f for f in p.allfns if f.key == key); n = 0
    def late(*a): raise TimeoutError()
    for full in (False, True):
        # the other functions over the lexer first as what they are known to do, then interpreted
        h = Trips(); A = Poly(p, h); why = 'ok'; A.CAP = 8; A.MAXDEPTH = 16; h.root = f
        h.rec = JOBS['rec'] if full else JOBS['rec'] | JOBS['roots']
        signal.signal(signal.SIGALRM, late); signal.alarm(240)
        try:
            if kind == 'lexer': lexer_case(A, h, p, f)
            else: growth_case(A, h, p, f, kind)
        except TimeoutError: why = 'late'
        except poly.Enough: why = 'late'
        except AnalysisError as e: why = str(e)[:200]
        finally: signal.alarm(0)
        if kind != 'lexer' or why == 'ok' and not h.bad: break
    return kind, key, why, h.n, h.bad

def lexer_case(A, h, p, f):
    from checks.numck import members, structsize, setcell, cell
    mod = p.modules['lexer']; M = members(mod, 'u_lexer_s'); h.lex = JOBS['lex']; h.only = (f.file,)
    st = poly.St(); obj = A.atom(('obj', 'lexer'), 1 << 12, 1 << 62, ptr=True); st.ext[obj] = L(structsize(mod, 'u_lexer_s')); h.obj = obj
    b = A.atom(('obj', 'lexed'), 1 << 12, 1 << 62, ptr=True); ln = A.A(('slen',), 0, 1 << 61); v = {k: A.A((k,), 0, 1 << 61) for k in ('pos', 'lmatch', 'rmatch')}
    A.fixed |= set(ln.t) | set(a for x in v.values() for a in x.t)
    st.ext[b] = ln + 1; st.cont = frozenset({(b, ln, L(0))})
    setcell(A, st, obj, M['s'], L(0, {b: 1})); setcell(A, st, obj, M['slen'], ln)
    A.addge(st, ln - v['pos'])
    for k in ('lmatch', 'rmatch'): A.addge(st, v['pos'] - v[k])
    for k in v: setcell(A, st, obj, M[k], v[k])
    def keep(A, fr, ins, st, name, args):
        # whatever it does it does with the operations of the lexer, which never move the cursor back (C13)
        old = cell(A, st, obj, M['pos'])
        out = A.unknown(fr, ins, st, name, args)
        for x, rv in out:
            q = A.A(('pos after', fr.ctx, ins.uid), 0, 1 << 61)
            setcell(A, x, obj, M['s'], L(0, {b: 1})); setcell(A, x, obj, M['slen'], ln); setcell(A, x, obj, M['pos'], q)
            if old is not None: A.addge(x, q - old)
            A.addge(x, ln - q); x.cont = x.cont | {(b, ln, L(0))}; x.ext[b] = ln + 1
            for k in ('lmatch', 'rmatch'):
                z = A.A((k + ' after', fr.ctx, ins.uid), 0, 1 << 61); setcell(A, x, obj, M[k], z); A.addge(x, q - z)
        return out
    h.keep = keep
    args = [L(0, {obj: 1}) if (f.key, k) in h.lex else A.intatom(('arg', f.name, k), t) for k, (t, nm, bv) in enumerate(f.params)]
    A.root(f, [st], args)

def growth_case(A, h, p, f, kind):
    from checks.numck import members, structsize, setcell
    m = 'str' if kind == 'string' else 'buf'; mod = p.modules[m]; h.only = (f.file,)
    T = 'u_string_s' if m == 'str' else 'u_buf_s'; M = members(mod, T); N = dict(d='data', n='data_sz', l='data_len') if m == 'str' else dict(d='data', n='size', l='len')
    st = poly.St(); obj = A.atom(('obj', kind), 1 << 12, 1 << 62, ptr=True); st.ext[obj] = L(structsize(mod, T))
    b = A.atom(('obj', 'text'), 1 << 12, 1 << 62, ptr=True)
    e = A.A(('ext',), 1, (1 << 62) - 1); n = A.A(('cap',), 1 if m == 'str' else 0, 1 << 62); l = A.A(('len',), 0, 1 << 62); A.fixed |= set(e.t) | set(n.t) | set(l.t)
    st.ext[b] = e; A.addge(st, e - n + -1); A.addge(st, n - l + (-1 if m == 'str' else 0))
    setcell(A, st, obj, M[N['d']], L(0, {b: 1})); setcell(A, st, obj, M[N['n']], n); setcell(A, st, obj, M[N['l']], l)
    st.cont = st.cont | {(b, l, L(0))}
    g = None
    if 'shift_cnt' in M:
        # the growth step: the limit the code keeps
        ks = [i.a[1][1] for q in mod.functions.values() if not q.decl for i in q.insts() if i.op == 'icmp' and i.a[1][0] == 'c' and isinstance(i.a[1][1], int) and 1 < i.a[1][1] < 50]
        K = max(ks) if ks else 0
        g = A.A(('step',), 0, K); A.fixed |= set(g.t); 
        t = next(t for nm, t in mod.types.items() if nm.split('.')[-1] == T)
        setcell(A, st, obj, M['shift_cnt'], g, next(sizeof(x) for k, x in enumerate(t.elems) if fieldoff(t, k) == M['shift_cnt']))
    args = [L(0, {obj: 1})]
    for k, (t, nm, bv) in list(enumerate(f.params))[1:]:
        if t.k == 'int' and k > 1 and f.params[k - 1][0].k == 'ptr':
            ln = A.A(('arglen',), 0, 1 << 61); A.fixed |= set(ln.t); args.append(ln)
        else: args.append(A.intatom(('arg', f.name, k), t))
    for x, rv in A.root(f, [st], args):
        c = x.mem.get((obj, M['shift_cnt'])) if g is not None else None
        if g is not None and (c is None or not A.ge0(x, L(K) - c[0])): h.bad.setdefault((f.file, f.line, f.name), poly.lines(x.trace))

def c29(pid, tier):
    r = Result('Two analyses. (1) Every loop of the library: the conditions of its exits are sliced back to loop variables, members of structures and results of calls; then the trips through the loop are searched, with what the branches taken say about results of calls and constants, for a cycle of trips on which no loop variable in the slice changes (moved by an amount that is not zero, following a link, new result of a call), no member in the slice is written (also by callees), no input was taken successfully and no interrupted call is repeated; negative results of formatted output and of input or output may not lead back into the loop. (2) Linear-inequality abstract interpretation of the loops over the text of a lexer and of those that enlarge a string or buffer, from any valid object: on every trip some counter or position must be shown to grow or shrink strictly.')
    p = compile_all(); engine.Engine(p, models.MODELS); ef = Effects(p); seen = set(); jobs = []
    JOBS['p'] = p; JOBS['lex'] = lexers(p); JOBS['rec'] = reaches(p)
    for f in p.allfns:
        if f.decl or not f.blocks or f.file is None: continue
        k0 = (f.file, f.line, f.name)
        if k0 in seen: continue
        seen.add(k0)
        c = poly.CFG(f)
        for h, body in sorted(c.loops.items()):
            l = Loop(p, ef, f, h, body); r.count('loops')
            line = next((i.line for i in f.blocks[h].insts if i.line), f.line)
            if not l.exits: r.add(f.file, line, f.name, 'endless', 'loop without an exit'); continue
            w = l.search(); r.count('trips', l.trips)
            if w: r.add(f.file, line, f.name, 'progress', 'a trip through the loop that changes nothing its exit depends on', w)
            for i, n, what in l.badres: r.add(f.file, i.line, f.name, 'result', '%s result of %s leads back into the loop' % (what, n))
        if c.loops:
            if any((f.key, k) in JOBS['lex'] for k in range(len(f.params))): jobs.append(('lexer', f.key))
            elif f.params and f.params[0][0].k == 'ptr' and f.file.endswith('/str.c'): jobs.append(('string', f.key))
            elif f.params and f.params[0][0].k == 'ptr' and f.file.endswith('/buf.c'): jobs.append(('buffer', f.key))
    JOBS['roots'] = set(k for t, k in jobs if t == 'lexer'); done = []
    with ProcessPoolExecutor(8) as P: done = list(P.map(one, jobs, chunksize=1))
    for kind, key, why, n, bad in done:
        if why != 'ok': r.cov.setdefault('not_finished', []).append('%s: %s' % (key, why)); continue
        r.count('functions_interpreted'); r.count('trips_shown_to_advance', n - len(bad))
        for (fl, ln, fn), tr in bad.items(): r.add(fl, ln, fn, 'advance', 'no position or size is shown to change strictly on every trip', tr)
    r.need('loops', 40); r.need('functions_interpreted', 6)
    return r
