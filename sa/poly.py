"""Abstract interpretation of the library in a linear-inequality domain.

An abstract state maps SSA values and memory cells to linear expressions over symbolic constants ("atoms": parameters,
initial cells, results of calls, loop variables) and carries a conjunction of linear inequalities over the atoms.
Entailment is decided inside the domain by Fourier-Motzkin elimination with integer tightening.  Calls inside the library
are interpreted on the state of the caller (no summaries), loops are cut at their headers: the values that change are
replaced by fresh atoms and the strongest inductive subset of a finite set of candidate inequalities is kept.
Machine integers: a value of width w denotes its linear expression modulo 2^w; before an operation which depends on the
representative (comparison, widening, division, addressing) the expression must be shown to be in range, otherwise the
value becomes a fresh atom about which only the range of the type is known (so wrap-around is never ignored)."""
import sys, os
from math import gcd
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ir import sizeof, fieldoff, BIN, CAST, AnalysisError

INF = float('inf')
RECOMP = ('and', 'or', 'xor', 'mul', 'q', 'norm', 'tab', 'div', 'rem')

# ------------------------------------------------------------------ linear expressions
import os, time
BUDGET = 480
class Enough(Exception):
    """the time for this analysis is used up"""
TRACE = os.environ.get('POLYTRACE')
class L:
    __slots__ = ('c', 't', '_k')
    def __init__(s, c=0, t=None): s.c = c; s.t = t or {}; s._k = None
    def key(s):
        if s._k is None: s._k = (s.c, tuple(sorted(s.t.items())))
        return s._k
    def __eq__(s, o): return isinstance(o, L) and s.c == o.c and s.t == o.t
    def __hash__(s): return hash(s.key())
    def __add__(s, o):
        if not isinstance(o, L): return L(s.c + o, s.t)
        t = dict(s.t)
        for a, k in o.t.items():
            n = t.get(a, 0) + k
            if n: t[a] = n
            else: del t[a]
        return L(s.c + o.c, t)
    def __neg__(s): return L(-s.c, {a: -k for a, k in s.t.items()})
    def __sub__(s, o): return s + (-o)
    def mul(s, k): return L(s.c * k, {a: x * k for a, x in s.t.items()}) if k else L(0)
    def const(s): return not s.t
    def one(s):
        """the atom when the expression is exactly one atom"""
        if s.c == 0 and len(s.t) == 1:
            (a, k), = s.t.items()
            if k == 1: return a
        return None
    def sub(s, a, e):
        k = s.t.get(a)
        if not k: return s
        t = dict(s.t); del t[a]
        return L(s.c, t) + e.mul(k)

class Atom:
    __slots__ = ('id', 'name', 'lo', 'hi', 'ptr', 'fn', 'al')
def isptr(a): return a.ptr

class Cmp:
    """an undecided comparison (value of type i1)"""
    __slots__ = ('p', 'x', 'y', 'w')
    def __init__(s, p, x, y, w): s.p = p; s.x = x; s.y = y; s.w = w
    def key(s): return ('cmp', s.p, s.x.key(), s.y.key(), s.w)
    def __eq__(s, o): return isinstance(o, Cmp) and s.key() == o.key()
    def __hash__(s): return hash(s.key())

NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}

# ------------------------------------------------------------------ Fourier-Motzkin
def tighten(t, c):
    g = 0
    for k in t.values(): g = gcd(g, k)
    if g > 1: t = {a: k // g for a, k in t.items()}; c = c // g
    return t, c

def infeasible(ineqs, eqs, limit=4000):
    """True when the conjunction (t.x + c >= 0, and == 0 for eqs) has certainly no integer solution"""
    ineqs = [(dict(t), c) for t, c in ineqs]; eqs = [(dict(t), c) for t, c in eqs]
    while eqs:
        # substitute an atom of coefficient +-1
        pick = None
        for n, (t, c) in enumerate(eqs):
            if not t:
                if c: return True
                pick = (n, None); break
            g = 0
            for k in t.values(): g = gcd(g, k)
            if c % g: return True
            for a, k in t.items():
                if abs(k) == g: pick = (n, a); break
            if pick: break
        if pick is None:
            t, c = eqs.pop()
            ineqs.append((t, c)); ineqs.append(({a: -k for a, k in t.items()}, -c)); continue
        n, a = pick
        t, c = eqs.pop(n)
        if a is None: continue
        k = t.pop(a)
        # k*a = -(t + c)
        def rep(e):
            u, d = e; x = u.get(a)
            if not x: return e
            u = dict(u); del u[a]
            # x*a = -x/k*(t+c) ; |k| == gcd so x/k may be fractional: scale
            if x % k == 0:
                q = -(x // k)
                for b, y in t.items():
                    v = u.get(b, 0) + q * y
                    if v: u[b] = v
                    else: u.pop(b, None)
                return (u, d + q * c)
            m = abs(k); u = {b: y * m for b, y in u.items()}; d *= m
            q = -(x if k > 0 else -x)
            for b, y in t.items():
                v = u.get(b, 0) + q * y
                if v: u[b] = v
                else: u.pop(b, None)
            return (u, d + q * c)
        ineqs = [rep(e) for e in ineqs]; eqs = [rep(e) for e in eqs]
    tab = {}
    def put(t, c):
        if not t: return c < 0
        t, c = tighten(t, c)
        k = tuple(sorted(t.items()))
        o = tab.get(k)
        if o is None or c < o[1]:
            tab[k] = (t, c)
            n = tab.get(tuple((a, -x) for a, x in k))
            if n is not None and n[1] + c < 0: return True
        return False
    for t, c in ineqs:
        if put(t, c): return True
    work = 0
    while tab:
        pos = {}; neg = {}
        for t, c in tab.values():
            for a, k in t.items():
                (pos if k > 0 else neg)[a] = (pos if k > 0 else neg).get(a, 0) + 1
        best = None
        for a in set(pos) | set(neg):
            p = pos.get(a, 0); n = neg.get(a, 0)
            sc = p * n - p - n
            if best is None or sc < best[0] or sc == best[0] and a < best[1]: best = (sc, a)
        a = best[1]
        P = []; N = []; rest = []
        for e in tab.values():
            k = e[0].get(a)
            (rest if not k else P if k > 0 else N).append(e)
        if len(P) * len(N) > 900: return False
        tab = {tuple(sorted(t.items())): (t, c) for t, c in rest}
        for tp, cp in P:
            for tn, cn in N:
                work += 1
                if work > limit: return False
                kp = tp[a]; kn = -tn[a]; g = gcd(kp, kn); m1 = kn // g; m2 = kp // g
                t = {x: k * m1 for x, k in tp.items() if x != a}
                for x, k in tn.items():
                    if x == a: continue
                    v = t.get(x, 0) + k * m2
                    if v: t[x] = v
                    else: t.pop(x, None)
                if put(t, cp * m1 + cn * m2): return True
        if len(tab) > 600: return False
    return False

# ------------------------------------------------------------------ state
class St:
    __slots__ = ('env', 'mem', 'cons', 'eqs', 'ext', 'cont', 'freed', 'trace', 'mark')
    def __init__(s):
        s.env = {}; s.mem = {}; s.cons = frozenset(); s.eqs = frozenset(); s.ext = {}; s.cont = frozenset(); s.freed = frozenset(); s.trace = None; s.mark = frozenset()
    def copy(s):
        n = St.__new__(St)
        n.env = dict(s.env); n.mem = dict(s.mem); n.cons = s.cons; n.eqs = s.eqs; n.ext = dict(s.ext); n.cont = s.cont; n.freed = s.freed; n.trace = s.trace; n.mark = s.mark
        return n

def lines(tr):
    out = []
    while tr is not None: out.append(tr[0]); tr = tr[1]
    out.reverse(); o = []
    for x in out:
        if not o or o[-1] != x: o.append(x)
    return o if len(o) < 24 else o[:11] + ['..'] + o[-11:]

class Frame:
    """one activation: call path + function"""
    __slots__ = ('f', 'ctx', 'depth', 'chain', 'args')
    def __init__(s, f, ctx, depth, chain, args=()): s.f = f; s.ctx = ctx; s.depth = depth; s.chain = chain; s.args = args

class CFG:
    def __init__(s, f):
        s.f = f
        # reverse post order
        seen = set(); post = []
        stack = [(f.entry, iter(f.entry.succs))]; seen.add(f.entry.name)
        while stack:
            b, it = stack[-1]
            for x in it:
                if x.name not in seen: seen.add(x.name); stack.append((x, iter(x.succs))); break
            else: post.append(b); stack.pop()
        s.rpo = {b.name: i for i, b in enumerate(reversed(post))}
        s.blocks = list(reversed(post))
        s.loops = {}
        for b in s.blocks:
            for x in b.succs:
                if s.rpo[x.name] <= s.rpo[b.name]:
                    body = s.loops.setdefault(x.name, {x.name})
                    w = [b]
                    while w:
                        y = w.pop()
                        if y.name in body: continue
                        body.add(y.name)
                        w += [p for p in y.preds if p.name in s.rpo]
        # liveness
        use = {}; dfn = {}
        for b in s.blocks:
            u = set(); d = set()
            for i in b.insts:
                if i.op != 'phi':
                    for v in opnds(i):
                        if v not in d: u.add(v)
                if i.res is not None: d.add(i.res)
            use[b.name] = u; dfn[b.name] = d
        live = {b.name: set() for b in s.blocks}; ch = True
        s.livein = live
        while ch:
            ch = False
            for b in reversed(s.blocks):
                o = set()
                for x in b.succs:
                    o |= live[x.name]
                    for ph in x.phis:
                        o.discard(ph.res)
                    for ph in x.phis:
                        for v, l in ph.a:
                            if l == b.name: o |= set(vnames(v))
                n = use[b.name] | (o - dfn[b.name])
                n |= set(ph.res for ph in b.phis)
                if n != live[b.name]: live[b.name] = n; ch = True

def vnames(v):
    if v[0] == '%': return [v[1]]
    if v[0] == 'cgep': return vnames(v[2])
    return []

def opnds(i):
    out = []
    if i.op == 'phi': return out
    for v in i.a:
        if isinstance(v, tuple): out += vnames(v)
    if i.op == 'call' and i.aux['callee'][0] == '%': out.append(i.aux['callee'][1])
    return out

class Report:
    def __init__(s, file, line, fn, cat, msg, path): s.file = file; s.line = line; s.fn = fn; s.cat = cat; s.msg = msg; s.path = path

class Poly:
    MAXDEPTH = 7
    CAP = 24          # states kept apart at one program point
    def __init__(s, prog, hook=None):
        s.born = time.monotonic(); s.first = 0; Poly.last = s
        s.prog = prog; s.hook = hook; s.atoms = {}; s.byid = []; s.cfg = {}; s.reports = {}; s.probe = 0; s.stats = {'accesses': 0, 'proved': 0, 'states': 0, 'loops': 0, 'calls': 0, 'entailments': 0}
        s.models = dict(MODELS); s.opaque = set(); s.sites = set(); s.fc = {}; s.headers = []; s.exits = {}
        s.inline = lambda fr, g: True
        s.fixed = set()     # atoms the specification talks about: never replaced by what they are found equal to

    # -------------------------------------------------------------- atoms
    def atom(s, name, lo=-INF, hi=INF, ptr=False, fn=None, al=1):
        a = s.atoms.get(name)
        if a is None:
            a = Atom(); a.id = len(s.byid); a.name = name; a.lo = lo; a.hi = hi; a.ptr = ptr; a.fn = fn; a.al = al
            s.byid.append(a); s.atoms[name] = a
        return a.id
    def A(s, *k, **kw): return L(0, {s.atom(*k, **kw): 1})
    def intatom(s, name, ty):
        if ty.k == 'ptr': return s.A(name, 0, (1 << 63) - 1, ptr=True)
        if ty.k == 'int':
            if ty.w == 64: return s.A(name, 0, (1 << 64) - 1)
            if ty.w == 1: return s.A(name, 0, 1)
            return s.A(name, -(1 << ty.w - 1), (1 << ty.w - 1) - 1)
        return s.A(name)
    def info(s, i): return s.byid[i]
    def separate(s, a): return s.byid[a].name[0] in ('h', 'al', 'obj')
    def deps(s, a):
        """atoms a computed value is a function of"""
        c = s.__dict__.setdefault('_deps', {})
        r = c.get(a)
        if r is None:
            n = s.byid[a].name; r = set()
            if isinstance(n, tuple) and n[0] in RECOMP:
                for x in n[1:]:
                    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple): r |= set(q for q, k in x[1])
            c[a] = r
        return r

    # -------------------------------------------------------------- entailment
    def interval(s, e):
        lo = hi = e.c
        for a, k in e.t.items():
            x = s.byid[a]
            l, h = (x.lo, x.hi) if k > 0 else (x.hi, x.lo)
            lo = lo + l * k if abs(l) != INF else -INF
            hi = hi + h * k if abs(h) != INF else INF
        return lo, hi
    def system(s, st, atoms):
        """constraints connected to the given atoms"""
        seen = set(atoms); cs = list(st.cons); es = list(st.eqs); ic = []; ie = []
        ch = True
        while ch:
            ch = False
            rest = []
            for c in cs:
                if any(a in seen for a in c.t):
                    ic.append(c); ch = True
                    seen.update(c.t)
                else: rest.append(c)
            cs = rest; rest = []
            for c in es:
                if any(a in seen for a in c.t):
                    ie.append(c); ch = True; seen.update(c.t)
                else: rest.append(c)
            es = rest
        return seen, ic, ie
    def infeas(s, st, extra=(), eextra=()):
        at = set()
        for e in extra: at.update(e.t)
        for e in eextra: at.update(e.t)
        seen, ic, ie = s.system(st, at)
        key = (frozenset(ic), frozenset(ie), tuple(e.key() for e in extra), tuple(e.key() for e in eextra))
        r = s.fc.get(key)
        if r is None:
            s.tick()
            s.stats['entailments'] += 1
            ineq = [(c.t, c.c) for c in ic] + [(e.t, e.c) for e in extra]
            for a in seen:
                x = s.byid[a]
                if x.lo != -INF: ineq.append(({a: 1}, -x.lo))
                if x.hi != INF: ineq.append(({a: -1}, x.hi))
            r = infeasible(ineq, [(c.t, c.c) for c in ie] + [(e.t, e.c) for e in eextra])
            if len(s.fc) > 200000: s.fc.clear()
            s.fc[key] = r
        return r
    def ge0(s, st, e):
        """is e >= 0 entailed"""
        lo, hi = s.interval(e)
        if lo >= 0: return True
        if hi < 0 or not e.t: return False
        if e in st.cons: return True
        return s.infeas(st, [-e + -1])
    def eq0(s, st, e):
        if not e.t: return e.c == 0
        return s.ge0(st, e) and s.ge0(st, -e)

    # -------------------------------------------------------------- assumptions
    def addge(s, st, e):
        """assume e >= 0; False when impossible"""
        lo, hi = s.interval(e)
        if lo >= 0: return True
        if hi < 0: return False
        t, c = tighten(e.t, e.c); e = L(c, t)
        if s.infeas(st, [e]): return False
        if not s.ge0(st, e): st.cons = st.cons | {e}
        return True
    def addeq(s, st, e):
        if not e.t: return e.c == 0
        if s.infeas(st, [], [e]): return False
        if s.eq0(st, e): 
            pass
        # substitute when one atom (not a pointer base) is determined
        for a in sorted(e.t, key=lambda a: (s.byid[a].ptr, -a)):
            k = e.t[a]
            if abs(k) == 1 and not s.byid[a].ptr and a not in s.fixed:
                t = dict(e.t); del t[a]
                v = L(e.c, t).mul(-k)
                x = s.byid[a]
                if x.lo != -INF and not s.addge(st, v + -x.lo): return False
                if x.hi != INF and not s.addge(st, -v + x.hi): return False
                s.subst(st, a, v)
                # what was said about it elsewhere (loop header, specification, a recomputation under the same name) still applies
                st.eqs = st.eqs | {L(0, {a: 1}) - v}
                return True
        st.eqs = st.eqs | {e}
        return True
    def subst(s, st, a, v):
        st.env = {k: sub1(x, a, v) for k, x in st.env.items()}
        st.mem = {k: (sub1(x[0], a, v), x[1]) for k, x in st.mem.items()}
        st.cons = frozenset(y for y in (x.sub(a, v) for x in st.cons) if y.t)
        st.eqs = frozenset(y for y in (x.sub(a, v) for x in st.eqs) if y.t or y.c)
        st.ext = {k: (x.sub(a, v) if x is not None else None) for k, x in st.ext.items()}
        st.cont = frozenset((b, o.sub(a, v), x.sub(a, v)) for b, o, x in st.cont)
        st.mark = frozenset(tuple(y.sub(a, v) if isinstance(y, L) else y for y in m) for m in st.mark)
    def assume(s, st, c, val):
        """c: Cmp or L (i1) -> list of states"""
        if isinstance(c, L):
            if c.const(): return [st] if (c.c & 1 != 0) == val else []
            return [st] if s.addeq(st, c + (-1 if val else 0)) else []
        p = c.p if val else NEG[c.p]
        w = c.w
        if w and not (c.x.const() and c.y.const()):
            # a value that may have wrapped is looked at case by case
            sgn = s.sgof(st, c.x, c.y, p, w)
            for which in (0, 1):
                e = (c.x, c.y)[which]
                if e.const() or s.inrange(st, e, w, sgn): continue
                rs = s.reps(st, e, w, sgn)
                if rs is None: continue
                out = []
                for n, v in rs: out += s.assume(n, Cmp(p, v if which == 0 else c.x, v if which == 1 else c.y, w), True)
                return out
        if w == 0:      # pointers
            x, y = c.x, c.y
        elif p in ('eq', 'ne'):
            x, y = s.same(st, c.x, c.y, w)
        else:
            sg = p[0] == 's'
            x = s.norm(st, c.x, w, sg); y = s.norm(st, c.y, w, sg)
        d = x - y
        if w == 0 and p in ('eq', 'ne'):
            # a fresh object is at no address known before it existed, and is not null
            pb = [a for a in d.t if s.byid[a].ptr]
            if len(d.t) == 2 and d.c == 0 and len(pb) == 2 and all(s.byid[a].name[0] == 'fn' for a in pb):
                fa, fb = (getattr(s.byid[a].fn, 'name', s.byid[a].fn) for a in pb)
                if fa != fb: return [st] if p == 'ne' else []
            if len(pb) == 2 and any(s.separate(a) for a in pb) and all(s.byid[a].name[0] in ('h', 'al', 'obj', 'g', 'fn', 'arg', 'm') for a in pb): return [st] if p == 'ne' else []
        if p == 'eq': return [st] if s.addeq(st, d) else []
        if p == 'ne':
            if d.const(): return [st] if d.c else []
            if s.ge0(st, d): return [st] if s.addge(st, d + -1) else []
            if s.ge0(st, -d): return [st] if s.addge(st, -d + -1) else []
            if len(d.t) > 2 or any(s.byid[a].ptr for a in d.t): return [st]
            n = st.copy(); out = []
            if s.addge(n, d + -1): out.append(n)
            if s.addge(st, -d + -1): out.append(st)
            return out
        q = p[1:]
        e = {'lt': -d + -1, 'le': -d, 'gt': d + -1, 'ge': d}[q]
        return [st] if s.addge(st, e) else []
    def sgof(s, st, x, y, p, w):
        if p not in ('eq', 'ne'): return p[0] == 's'
        for sg in ((True, False) if w < 64 else (False, True)):
            if s.inrange(st, x, w, sg) and s.inrange(st, y, w, sg): return sg
        for sg in ((True, False) if w < 64 else (False, True)):
            if s.inrange(st, x, w, sg) or s.inrange(st, y, w, sg): return sg
        return True
    def reps(s, st, e, w, sg):
        """[(state, representative)] of a value in up to three windows; None when there would be more"""
        lo, hi = s.bounds(w, sg); l, h = s.interval(e); m = 1 << w
        if l < lo - m and not s.ge0(st, e + (m - lo)) or h > hi + m and not s.ge0(st, -e + (hi + m)): return None
        out = []
        for k in (0, m, -m):
            n = st.copy()
            if s.addge(n, e + (k - lo)) and s.addge(n, -e + (hi - k)): out.append((n, e + k))
        return out
    def same(s, st, x, y, w):
        """representatives of two values about to be tested for equality"""
        sg = s.sgof(st, x, y, 'eq', w)
        return s.norm(st, x, w, sg), s.norm(st, y, w, sg)
    def truth(s, st, c):
        a = s.assume(st.copy(), c, True); b = s.assume(st.copy(), c, False)
        return True if not b else False if not a else None

    # -------------------------------------------------------------- machine integers
    def bounds(s, w, sg): return (-(1 << w - 1), (1 << w - 1) - 1) if sg else (0, (1 << w) - 1)
    def inrange(s, st, e, w, sg):
        lo, hi = s.bounds(w, sg); l, h = s.interval(e)
        if any(s.byid[a].ptr for a in e.t) and w == 64: return True
        if l < lo and not s.ge0(st, e + -lo): return False
        if h > hi and not s.ge0(st, -e + hi): return False
        return True
    def norm(s, st, e, w, sg):
        if w == 0: return e
        if e.const():
            m = e.c & ((1 << w) - 1)
            return L(m - (1 << w) if sg and m >> (w - 1) else m)
        if s.inrange(st, e, w, sg): return e
        for k in (1 << w, -(1 << w)):
            if s.inrange(st, e + k, w, sg): return e + k
        lo, hi = s.bounds(w, sg)
        return s.A(('norm', e.key(), w, sg), lo, hi)

    # -------------------------------------------------------------- reporting
    def tick(s):
        now = time.monotonic()
        if now > s.born + BUDGET or s.reports and now > s.first + BUDGET / 8: raise Enough()
    def report(s, fr, ins, st, cat, msg):
        if s.probe: return
        k = (fr.f.file, ins.line, cat, msg)
        if not s.reports: s.first = time.monotonic()
        if k not in s.reports: s.reports[k] = Report(fr.f.file, ins.line, fr.f.name, cat, msg + (' [called from %s]' % ' <- '.join(reversed(fr.chain)) if fr.chain else ''), lines(st.trace))
    def show(s, e):
        if e is None: return '?'
        out = []
        for a, k in sorted(e.t.items()):
            n = s.aname(a)
            out.append(('' if k == 1 else '-' if k == -1 else '%d*' % k) + n)
        if e.c or not out: out.append(str(e.c))
        return ' + '.join(out).replace('+ -', '- ')
    def aname(s, a):
        n = s.byid[a].name
        if isinstance(n, str): return n
        return '<' + '.'.join(str(x) for x in n if isinstance(x, (str, int)))[:60] + '>'

    # -------------------------------------------------------------- memory
    def split(s, e):
        """(base atom, offset) of an address; None when it has no single base"""
        b = None
        for a, k in e.t.items():
            if s.byid[a].ptr:
                if k != 1 or b is not None: return None, e
                b = a
        if b is None: return None, e
        t = dict(e.t); del t[b]
        return b, L(e.c, t)
    def access(s, fr, ins, st, p, size, kind):
        """obligation: [p, p+size) inside the object"""
        b, off = s.split(p)
        if not isinstance(size, L): size = L(size)
        if s.hook: s.hook.access(s, fr, ins, st, b, off, size, kind)
        return b, off
    def bounded(s, fr, ins, st, b, off, size):
        """True/False/None: inside the object, not provably so, extent unknown"""
        if b is None: return None
        ext = st.ext.get(b)
        if ext is None: return None
        lo = off; hi = ext - off - size
        if size.const() and size.c == 0: return True
        if s.ge0(st, lo) and s.ge0(st, hi): return True
        # nothing is accessed when the size is zero
        if not size.const():
            n = st.copy()
            if not s.addge(n, size + -1): return True
            if s.ge0(n, lo) and s.ge0(n, hi): return True
        return False
    def load(s, fr, ins, st, p, ty):
        sz = sizeof(ty)
        b, off = s.access(fr, ins, st, p, sz, 'r')
        if b is None: return s.intatom(('ld', fr.ctx, ins.uid), ty)
        x = s.byid[b]
        if off.const():
            c = st.mem.get((b, off.c))
            if c is not None and c[1] == sz: return c[0]
        g = s.gload(b, off, ty, st)
        if g is not None: return g
        for cb, co, cv in st.cont:
            if cb == b and sz == 1 and s.eq0(st, co - off): return cv
        if s.hook and hasattr(s.hook, 'loadval'):
            v = s.hook.loadval(s, fr, ins, st, b, off, ty)
            if v is not None:
                if off.const(): st.mem[(b, off.c)] = (v, sz)
                return v
        if off.const():
            ov = [k for k, c in st.mem.items() if k[0] == b and k[1] < off.c + sz and off.c < k[1] + c[1]]
            if ov: return s.intatom(('ld', fr.ctx, ins.uid), ty)
            n = ('m', x.name, off.c) if ('w', b) not in st.mark else ('ld', fr.ctx, ins.uid)
            v = s.intatom(n, ty)
            st.mem[(b, off.c)] = (v, sz)
            return v
        if ty.k == 'ptr':
            # the same place read again, nothing written to the object in between
            for m in st.mark:
                if m[0] == 'sv' and m[1] == b and m[3] == sz and m[2] == off: return m[4]
            v = s.intatom(('ld', fr.ctx, ins.uid), ty)
            st.mark = frozenset(m for m in st.mark if m[0] != 'sv' or m[4] != v) | {('sv', b, off, sz, v)}
            return v
        return s.intatom(('ld', fr.ctx, ins.uid), ty)
    def gload(s, b, off, ty, st):
        """value loaded from a constant table"""
        n = s.byid[b].name
        if n[0] != 'g': return None
        g = n[2]
        if g is None or not s.immutable(n[1], g): return None
        if ty.k == 'ptr':
            x = g.init
            if x is not None and x[0] == 'g' and off.const() and off.c == 0 and g.ty.k == 'ptr': return s.gaddr2(g.mod, x[1], st)
            return None
        vals = s.table(g)
        if vals is None: return None
        sz = sizeof(ty)
        if vals[0] != sz: return None
        if off.const():
            i = off.c // sz
            return L(vals[1][i]) if off.c % sz == 0 and 0 <= i < len(vals[1]) else None
        lo, hi = min(vals[1]), max(vals[1])
        # restrict to the indices the offset can reach
        l, h = s.interval(off)
        if l >= 0 and h < 1 << 20:
            sub = vals[1][int(l) // sz:int(h) // sz + 1]
            if sub: lo, hi = min(sub), max(sub)
        return s.A(('tab', n[1], off.key()), lo, hi)
    def immutable(s, key, g):
        if g.const: return True
        c = s.__dict__.setdefault('_imm', {})
        if key not in c:
            # an internal table nothing stores to and whose address is used by loads only
            ok = g.internal
            if ok:
                for f in g.mod.functions.values() if hasattr(g, 'mod') and g.mod else []:
                    for i in f.insts() if not f.decl else []:
                        for n, v in enumerate(i.a if i.op != 'phi' else []):
                            if mentions(v, g.name) and not (i.op == 'load' or i.op == 'gep' and n == 0): ok = False
                            if i.op == 'gep' and n == 0 and mentions(v, g.name):
                                for u in f.insts():
                                    if u.op == 'phi': 
                                        if any(x == ('%', i.res) for x, l in u.a): ok = False
                                    elif any(x == ('%', i.res) for x in u.a) and u.op not in ('load', 'gep'): ok = False
            c[key] = ok
        return c[key]
    def table(s, g):
        c = s.__dict__.setdefault('_tab', {})
        k = id(g)
        if k not in c: c[k] = flat(g)
        return c[k]
    def store(s, fr, ins, st, p, v, ty, kind='w'):
        sz = sizeof(ty)
        b, off = s.access(fr, ins, st, p, sz, kind)
        if b is None: return
        nuls = [x for x in st.cont if x[0] == b and x[2] == L(0)] if sz == 1 and v == L(0) else ()
        s.clobber(st, b, off, L(sz))
        if nuls: st.cont = st.cont | frozenset(nuls)       # a NUL over a NUL
        if off.const(): st.mem[(b, off.c)] = (v, sz)
        elif ty.k == 'ptr' and isinstance(v, L): st.mark = st.mark | {('sv', b, off, sz, v)}
        if sz == 1 and isinstance(v, L) and v.const(): st.cont = st.cont | {(b, off, v)}
    def clobber(s, st, b, off, size):
        """bytes [off, off+size) of b change"""
        if any(k[0] == b for k in st.mem):
            n = {}
            for k, c in st.mem.items():
                if k[0] == b:
                    if off.const() and size.const():
                        if k[1] < off.c + size.c and off.c < k[1] + c[1]: continue
                    elif not (s.ge0(st, off + -(k[1] + c[1])) or s.ge0(st, -(off + size) + k[1])): continue
                n[k] = c
            st.mem = n
        st.mark = s.stale(st, b) | {('w', b)}
        st.cont = frozenset(x for x in st.cont if x[0] != b or s.ge0(st, off - x[1] + -1) or s.ge0(st, x[1] - off - size))
    def stale(s, st, b): return frozenset(m for m in st.mark if not (m[0] == 'len' and s.split(m[2])[0] == b or m[0] == 'sv' and m[1] == b))
    def havoc(s, st, b):
        st.mem = {k: c for k, c in st.mem.items() if k[0] != b}
        st.cont = frozenset(x for x in st.cont if x[0] != b)
        st.mark = s.stale(st, b) | {('w', b)}

    # -------------------------------------------------------------- values
    def val(s, fr, st, v, ty=None):
        k = v[0]
        if k == '%':
            r = st.env.get((fr.ctx, v[1]))
            if r is None: r = s.A(('undef', fr.ctx, v[1]))
            return r
        if k == 'c': return L(v[1])
        if k in ('zero', 'null'): return L(0)
        if k == 'undef': return s.A(('undef', fr.ctx, 'u'))
        if k == 'g': return s.gaddr(fr, st, v[1])
        if k == 'cgep':
            _, t, b, idx = v
            base = s.val(fr, st, b)
            return s.gepval(fr, st, base, t, [L(i[1]) if i[0] == 'c' else s.A(('undef', fr.ctx, 'i')) for i in idx], None)
        return s.A(('const', repr(v)[:40]))
    def gaddr(s, fr, st, name): return s.gaddr2(fr.f.mod, name, st)
    def gaddr2(s, m, name, st):
        f = s.prog.resolve(m, name)
        if f is not None or name in m.decls: return s.A(('fn', f.key if f is not None and hasattr(f, 'key') else name), 4096, (1 << 47), ptr=True, fn=f or name)
        g = m.globals.get(name)
        key = m.name + ':' + name if g is not None and g.internal else name
        gg = g
        if g is not None and g.decl: gg = s.prog.globals.get(name, g)
        a = s.atom(('g', key, gg), 4096, 1 << 47, ptr=True)
        if a not in st.ext and gg is not None and gg.ty is not None and sizeof(gg.ty): st.ext[a] = L(sizeof(gg.ty))
        return L(0, {a: 1})
    def gepval(s, fr, st, base, t, idx, ins):
        e = base; 
        if not (idx[0].const() and idx[0].c == 0):
            i0 = s.index(fr, st, idx[0])
            e = e + i0.mul(sizeof(t))
        n = 1
        while n < len(idx):
            ix = idx[n]
            if t.k == 'struct':
                o = fieldoff(t, ix.c); ft = t.elems[ix.c]
                e = e + o
                t = ft
                if t.k == 'array' and ins is not None: e = s.member(st, e, t)
            else:
                e = e + s.index(fr, st, ix).mul(sizeof(t.elem)); t = t.elem
            n += 1
        return e
    def index(s, fr, st, e):
        """an index is a signed 64 bit number (O0 code extends it); what cannot be wrapped stays as it is"""
        if e.const() and e.c >= 1 << 63: return L(e.c - (1 << 64))
        if not e.const() and not s.inrange(st, e, 64, True):
            # what has been wrapped for certain
            if s.ge0(st, e + -(1 << 64)): return e + -(1 << 64)
        return e
    def member(s, st, e, t):
        """address of an array member: an object of its own inside the enclosing one"""
        b, off = s.split(e)
        if b is None or not off.const(): return e
        if s.byid[b].name[0] == 'mem': return e
        if st.ext.get(b) is not None and st.ext[b].const() and off.c == 0 and st.ext[b].c == sizeof(t): return e
        a = s.atom(('mem', s.byid[b].name, off.c), 1, (1 << 63) - 1, ptr=True)
        st.ext[a] = L(sizeof(t))
        return L(0, {a: 1})

    # -------------------------------------------------------------- execution
    def getcfg(s, f):
        c = s.cfg.get(f)
        if c is None: c = s.cfg[f] = CFG(f)
        return c
    def root(s, f, states, args):
        """interpret f from the given states; args: list of L.  -> [(state, return value)]"""
        fr = Frame(f, f.name, 0, [], args)
        return s.call_fn(fr, states, args)
    def call_fn(s, fr, states, args):
        f = fr.f; cfg = s.getcfg(f); out = []
        ini = []
        for st in states:
            for k, (t, nm, bv) in enumerate(f.params):
                st.env[(fr.ctx, nm)] = args[k] if k < len(args) else s.intatom(('arg', fr.ctx, k), t)
            ini.append((None, st))
        rets = []
        s.region(fr, cfg, f.entry, ini, None, None, rets)
        for st, v in rets:
            if fr.depth: st.env = {k: x for k, x in st.env.items() if k[0] != fr.ctx}
            out.append((st, v))
        return out
    def region(s, fr, cfg, start, ini, body, header, rets):
        """run the blocks of `body` (None: all) from start; -> (states at the back edge, [(pred, target, state)] leaving)"""
        pend = {start.name: list(ini)}; back = []; leave = []; order = cfg.rpo
        first = True
        while pend:
            n = min(pend, key=lambda x: order[x]); b = fr.f.blocks[n]; ent = pend.pop(n)
            if n in cfg.loops and not (n == header and first):
                outs = []
                groups = s.limit(fr, cfg, b, [s.enter(fr, b, p, st) for p, st in ent], True)
                for st in groups:
                    s.loop(fr, cfg, b, st, rets, outs)
            else:
                first = False
                states = []
                if n == header: states = [st for p, st in ent]
                else: states = s.limit(fr, cfg, b, [s.enter(fr, b, p, st) for p, st in ent])
                outs = []
                for st in states: outs += s.block(fr, b, st, rets)
            for p, t, st in outs:
                if header is not None and t.name == header: back.append((p, st))
                elif body is not None and t.name not in body: leave.append((p, t, st))
                else: pend.setdefault(t.name, []).append((p, st))
        return back, leave
    def enter(s, fr, b, pred, st):
        if pred is not None and b.phis:
            new = {}
            for ph in b.phis:
                for v, l in ph.a:
                    if l == pred.name: new[ph.res] = s.val(fr, st, v)
            for k, v in new.items(): st.env[(fr.ctx, k)] = v
        st.trace = (b.insts[0].line if b.insts else 0, st.trace)
        return st
    def key(s, fr, cfg, b, st):
        live = cfg.livein[b.name]
        env = frozenset((k, v if not hasattr(v, 'key') else v.key()) for k, v in st.env.items() if k[0] != fr.ctx or k[1] in live)
        return (env, frozenset((k, c[0].key(), c[1]) for k, c in st.mem.items()), st.cons, st.eqs, st.cont, frozenset((k, e.key() if e is not None else None) for k, e in st.ext.items()), st.freed, frozenset(m for m in st.mark if m[0] != 'w'))
    def prune(s, fr, cfg, b, st):
        live = cfg.livein[b.name]
        st.env = {k: v for k, v in st.env.items() if k[0] != fr.ctx or k[1] in live}
        keep = set()
        for v in st.env.values(): keep.update(vatoms(v))
        for (bb, o), c in st.mem.items(): keep.add(bb); keep.update(vatoms(c[0]))
        for e in st.ext.values():
            if e is not None: keep.update(e.t)
        for m in st.mark:
            for y in m:
                if isinstance(y, L): keep.update(y.t)
        for bb, o, v in st.cont: keep.update(o.t)
        if s.hook and hasattr(s.hook, 'roots'): keep.update(s.hook.roots(s, st))
        # computed values can be computed again from what is kept
        for c in list(st.cons) + list(st.eqs):
            for a in c.t:
                if a not in keep and all(d in keep for d in s.deps(a)) and s.deps(a): keep.add(a)
        seen, ic, ie = s.system(st, keep)
        st.cons = frozenset(ic); st.eqs = frozenset(ie)
    def limit(s, fr, cfg, b, states, loop=False):
        out = {}
        if len(states) > 1:
            for st in states:
                s.prune(fr, cfg, b, st)
                out.setdefault(s.key(fr, cfg, b, st), st)
            states = list(out.values())
        cap = s.CAP if not loop else max(2, s.CAP // 4)
        cheap = getattr(s.hook, 'cheapjoin', None)
        while len(states) > cap:
            # join the states pairwise, keeping those with different marks apart when possible
            groups = {}
            for st in states: groups.setdefault(s.jkey(st), []).append(st)
            n = []
            for g in groups.values():
                a = g[0]
                for i, x in enumerate(g[1:]): a = s.join(fr, cfg, b, a, x, cheap is not None and len(g) - i > cheap)
                n.append(a)
            if len(n) == len(states): 
                a = n[0]
                for x in n[1:]: a = s.join(fr, cfg, b, a, x)
                n = [a]
            states = n
        s.stats['states'] += len(states)
        return states
    def jkey(s, st):
        if s.hook and hasattr(s.hook, 'jkey'): return s.hook.jkey(s, st)
        return 0
    def join(s, fr, cfg, b, x, y, cheap=False):
        live = cfg.livein[b.name]
        n = St(); n.trace = x.trace; n.freed = x.freed | y.freed
        n.mark = frozenset(m for m in x.mark | y.mark if m[0] == 'w' or m in x.mark and m in y.mark)
        de = []       # (atom, expr in x, expr in y)
        cache = {}
        def merge(name, a, c):
            if a == c: return a
            if not isinstance(a, L) or not isinstance(c, L): return s.A(('j', fr.ctx, b.name) + name)
            k = (a.key(), c.key())
            if k in cache: return cache[k]
            ba, oa = s.split(a); bc, oc = s.split(c)
            if ba is not None and ba == bc:
                r = L(0, {ba: 1}) + merge(name + ('o',), oa, oc)
                cache[k] = r; return r
            lo, hi = s.interval(a); l2, h2 = s.interval(c)
            at = s.atom(('j', fr.ctx, b.name, k), min(lo, l2), max(hi, h2), ptr=ba is not None or bc is not None)
            de.append((at, a, c)); r = L(0, {at: 1}); cache[k] = r
            if s.byid[at].ptr:
                ea = s.extof(x, ba, oa); ec = s.extof(y, bc, oc)
                if ea is not None and ec is not None: n.ext[at] = merge(name + ('e',), ea, ec)
            return r
        for k in x.ext:
            if k in y.ext:
                if x.ext[k] is None or y.ext[k] is None: n.ext[k] = None
                else: n.ext[k] = merge(('x', k), x.ext[k], y.ext[k])
        for k, e in list(x.ext.items()) + list(y.ext.items()):
            if k not in n.ext: n.ext[k] = e
        for k in x.env:
            if k[0] == fr.ctx and k[1] not in live: continue
            if k in y.env: n.env[k] = merge(('e', k), x.env[k], y.env[k])
        for k in x.mem:
            if k in y.mem and x.mem[k][1] == y.mem[k][1]: n.mem[k] = (merge(('c', k), x.mem[k][0], y.mem[k][0]), x.mem[k][1])
        for k in list(x.mem) + list(y.mem):
            if k not in n.mem: n.mark = n.mark | {('w', k[0])}
        # content facts
        n.cont = x.cont & y.cont
        for (bb, o, v) in sorted(x.cont, key=lambda z: (z[0], z[1].key())):
            for (b2, o2, v2) in sorted(y.cont, key=lambda z: (z[0], z[1].key())):
                if bb == b2 and v == v2 and o != o2 and sum(z[0] == bb for z in n.cont) < 4: n.cont = n.cont | {(bb, merge(('t', bb), o, o2), v)}
        xs = x.copy(); ys = y.copy()
        xs.eqs = x.eqs | {L(0, {a: 1}) - e for a, e, f in de}; ys.eqs = y.eqs | {L(0, {a: 1}) - f for a, e, f in de}
        cand = {}
        back1 = {e.one(): a for a, e, f in de if e.one() is not None}; back2 = {f.one(): a for a, e, f in de if f.one() is not None}
        for c in sorted(x.cons | y.cons, key=L.key):
            cand[c] = 1
            for m in (back1, back2):
                d = c
                for o, a in m.items(): d = d.sub(o, L(0, {a: 1}))
                cand[d] = 1
        for e in sorted(x.eqs | y.eqs, key=L.key): cand[e] = cand[-e] = 1
        # how a merged value compares with what it was on either side
        for a, e, f in de:
            for z in (e, f):
                cand[L(0, {a: 1}) - z] = cand[z - L(0, {a: 1})] = 1
        for i, (a, e, f) in enumerate(de):
            for a2, e2, f2 in de[:i] + de[i + 1:]:
                ks = [1, -1] if a < a2 else []
                for k, v in e.t.items():      # one is a multiple of the other on both sides
                    w = e2.t.get(k)
                    if w and v % w == 0 and abs(v) > abs(w): ks.append(v // w); break
                for sg in ks:
                    d = e - e2.mul(sg); d2 = f - f2.mul(sg)
                    if d == d2:
                        q = L(0, {a: 1}) - L(0, {a2: sg}) - d
                        cand[q] = cand[-q] = 1
        keep = set()
        for c in list(cand)[:400]:
            if not c.t: continue
            if cheap:
                if c in x.cons and c in y.cons: keep.add(c)
                continue
            if (c in x.cons or s.ge0(xs, c)) and (c in y.cons or s.ge0(ys, c)): keep.add(c)
        if len(keep) > 24:
            # only what is not implied by simpler facts
            n.cons = frozenset()
            for c in sorted(keep, key=lambda c: (len(c.t), abs(c.c), c.key())):
                if not s.ge0(n, c): n.cons = n.cons | {c}
            keep = n.cons
        if TRACE == 'join': print('JOIN', fr.f.name, b.name, len(cand), len(x.cons), len(y.cons), len(keep), len(x.eqs), len(n.eqs))
        n.cons = frozenset(keep)
        return n
    def extof(s, st, b, off):
        if b is None: return None
        e = st.ext.get(b)
        return None if e is None else e - off

    # -------------------------------------------------------------- loops
    def loop(s, fr, cfg, h, st, rets, outs, peeled=False):
        body = cfg.loops[h.name]; s.stats['loops'] += 1
        u = getattr(s.hook, 'unroll', 0)
        if u:
            # the first trips one by one, what is left in general
            work = [(st, u)]
            while work:
                x, k = work.pop()
                if k == 0:
                    s.hook.unroll = 0
                    try: s.loop(fr, cfg, h, x, rets, outs)
                    finally: s.hook.unroll = u
                    continue
                back, leave = s.region(fr, cfg, h, [(None, x)], body, h.name, rets)
                outs += leave; work += [(s.enter(fr, h, p, y), k - 1) for p, y in back]
            return
        entry = st
        phis = [ph for ph in h.phis]
        cells = set(); candidates = None; widened_cont = None; dead_ext = set()
        eenv = {ph.res: entry.env.get((fr.ctx, ph.res)) for ph in phis}
        def header(cands):
            n = entry.copy(); defs = []; movers.clear()
            for ph in phis:
                v0 = eenv[ph.res]
                if ph.res in keepphi: continue
                b0, o0 = s.split(v0) if isinstance(v0, L) else (None, None)
                if isinstance(v0, L) and b0 is not None and ph.res not in wildphi:
                    a = s.atom(('phi', fr.ctx, ph.uid, h.name), -(1 << 63), 1 << 63)
                    n.env[(fr.ctx, ph.res)] = L(0, {b0: 1, a: 1}); defs.append((a, o0, ('%', ph.res, b0)))
                else:
                    x = s.intatom(('phi', fr.ctx, ph.uid, h.name, 'w'), ph.ty)
                    n.env[(fr.ctx, ph.res)] = x
                    if isinstance(v0, L) and ph.ty.k == 'int': defs.append((x.one(), v0, ('%', ph.res, None)))
            for (b, o), sz in sorted(cells):
                c = entry.mem.get((b, o))
                if c is None: continue
                if c[0] is not None and isinstance(c[0], L):
                    b0, o0 = s.split(c[0])
                    if b0 is not None and (b, o) not in wildcell:
                        a = s.atom(('cell', fr.ctx, h.name, b, o), -(1 << 63), 1 << 63)
                        n.mem[(b, o)] = (L(0, {b0: 1, a: 1}), sz); defs.append((a, o0, ('m', b, o, b0)))
                    elif b0 is None and (b, o) not in wildcell:
                        l, hi = s.interval(c[0])
                        r = (1 << (8 * sz)) - 1 if sz == 8 else (1 << (8 * sz - 1)) - 1
                        a = s.atom(('cell', fr.ctx, h.name, b, o), 0 if sz == 8 else -r - 1, r)
                        n.mem[(b, o)] = (L(0, {a: 1}), sz); defs.append((a, c[0], ('m', b, o, None)))
                    elif (b, o) not in lostcell and (k0 := s.whole(entry, c[0])) is not None:
                        # another object each time: what is known about it is its extent and its contents
                        q = s.atom(('cellp', fr.ctx, h.name, b, o) + (('null',) if (b, o) in nullcell else ()), 0 if (b, o) in nullcell or s.byid[k0].lo <= 0 else 4096, 1 << 62, ptr=True); e = s.atom(('cellx', fr.ctx, h.name, b, o), 0, 1 << 62)
                        n.mem[(b, o)] = (L(0, {q: 1}), sz); n.ext[q] = L(0, {e: 1}); movers[(b, o)] = q
                        n.cont = n.cont | {(q, co, cv) for cb, co, cv in entry.cont if cb == k0}
                        n.mark = n.mark | {('w', q)}
                        defs.append((e, entry.ext[k0], ('x', b, o)))
                    else:
                        n.mem.pop((b, o))
                        n.mark = n.mark | {('w', b)}
                else: n.mem.pop((b, o))
            # a fact about the place a moving value points to may move with it
            n.cont = n.cont | {(cb, L(0, {a: 1}), cv) for cb, co, cv in n.cont for a, v0, w in defs if v0 == co and w[0] != 'x'}
            if contdrop is not None: n.cont = frozenset(x for x in n.cont if x not in contdrop)
            for k in extdrop: n.ext.pop(k, None)
            n.mark = (n.mark | wmarks) - markdrop
            own_ = set(a for a, v0, w in defs)
            n.mark = frozenset(m for m in n.mark if m[0] != 'sv' or not (own_ & set(m[2].t) or own_ & set(m[4].t)))
            for q in cands: n.cons = n.cons | {q}
            if hasattr(s.hook, 'assumed'):
                for q in s.hook.assumed(n, defs): n.cons = n.cons | {q}
            return n, defs
        keepphi = set(); wildphi = set(); wildcell = set(); lostcell = set(); nullcell = set(); peel = False; movers = {}; contdrop = frozenset(); extdrop = set(); cands = []; wmarks = frozenset(); markdrop = frozenset()
        s.probe += 1
        tried = None; rounds = 0
        try:
            while True:
                rounds += 1
                if rounds > 80: raise AnalysisError('no fixpoint at loop %s:%d in %s' % (fr.f.file, h.insts[0].line, fr.f.name))
                hd, defs = header(cands)
                r2 = []
                back, leave = s.region(fr, cfg, h, [(None, hd.copy())], body, h.name, r2)
                back = [s.enter(fr, h, p, x) for p, x in back]
                # structure: which cells, objects and facts survive a trip
                changed = False
                for x in back:
                    for ph in phis:
                        v = x.env.get((fr.ctx, ph.res)); hv = hd.env.get((fr.ctx, ph.res))
                        if isinstance(v, L) and isinstance(hv, L):
                            b1, _ = s.split(v); b0, _ = s.split(hv)
                            if b1 != b0 and ph.res not in wildphi and not (b0 is not None and s.byid[b0].name[0] == 'phi'): wildphi.add(ph.res); changed = True
                    for k, c in hd.mem.items():
                        y = x.mem.get(k)
                        if y is None or y[1] != c[1]:
                            if k not in lostcell: lostcell.add(k); changed = True
                            if (k, c[1]) not in cells: cells.add((k, c[1])); changed = True
                            if k not in wildcell: wildcell.add(k); changed = True
                        elif y[0] != c[0]:
                            if (k, c[1]) not in cells: cells.add((k, c[1])); changed = True
                            else:
                                b1 = s.split(y[0])[0] if isinstance(y[0], L) else None; b0 = s.split(c[0])[0] if isinstance(c[0], L) else None
                                if b1 != b0 and k not in wildcell: wildcell.add(k); changed = True
                                elif k in movers and s.whole(x, y[0]) is None and k not in lostcell: lostcell.add(k); changed = True
                                elif k in movers and k not in nullcell and s.byid[movers[k]].lo > 0 and (q_ := s.whole(x, y[0])) is not None and s.byid[q_].lo <= 0: nullcell.add(k); changed = True
                                if b0 is None and not peeled and c[1] == 8 and (e0 := entry.mem.get(k)) and e0[0] == L(0) and isinstance(y[0], L) and s.whole(x, y[0]) is not None: peel = True
                    for k, e in hd.ext.items():
                        if x.ext.get(k) != e and k not in extdrop: extdrop.add(k); changed = True
                    wn = frozenset(m for m in x.mark if m[0] == 'w') - hd.mark
                    if wn: wmarks = wmarks | wn; changed = True
                    md = frozenset(m for m in hd.mark if m[0] != 'w' and m not in x.mark)
                    if md: markdrop = markdrop | md; changed = True
                if TRACE and TRACE in fr.f.name: print('LOOP', h.insts[0].line, 'round', rounds, 'back', [[s.show(c) for c in x.cons if any(a in c.t for a,_,_ in defs)] for x in back], 'leave', len(leave), 'changed', changed, 'lost', lostcell, 'peel', peel, peeled, [[(s.show(x.mem.get(k,(L(0),))[0]),s.show(x.ext[s.split(x.mem[k][0])[0]]) if x.mem.get(k) and s.split(x.mem[k][0])[0] in x.ext else None) for k in wildcell] for x in back], 'contdrop', [(s.show(L(0,{a:1})), s.show(o)) for a, o, v in contdrop], wildphi, wildcell)
                if peel: break
                if changed: tried = None; cands = []; continue
                if tried is None:
                    cands = [q for q in s.candidates(fr, cfg, h, entry, hd, defs, back, leave) if s.holds(entry, q, defs)]
                    tried = True
                    if cands: continue
                bad = []
                for q in cands:
                    for x in back:
                        m = s.remap(fr, x, defs)
                        if m is None or not s.ge0(x, apply(q, m)): bad.append(q); break
                # what is known about contents, given the candidates
                cdrop = set()
                for x in back:
                    m_ = None
                    for cf in hd.cont:
                        cb = [k for k, q in movers.items() if q == cf[0]]
                        # the position is that of the header values at the end of the trip
                        wb = cf[0] if not cb else s.whole(x, x.mem[cb[0]][0]) if cb[0] in x.mem else None
                        if m_ is None: m_ = s.remap(fr, x, defs)
                        po = apply(cf[1], m_)
                        if wb is None or not ((wb, po, cf[2]) in x.cont or any(z[0] == wb and z[2] == cf[2] and s.eq0(x, z[1] - po) for z in x.cont)): cdrop.add(cf)
                if TRACE and TRACE in fr.f.name: print('LOOP', h.insts[0].line, 'round', rounds, 'cands', len(cands), 'drop', [s.show(q) for q in bad], 'cont', [(s.show(L(0,{a:1})), s.show(o), str(v)) for a, o, v in hd.cont])
                if not bad and not cdrop: break
                contdrop = contdrop | cdrop
                bs = set(bad); cands = [q for q in cands if q not in bs]
            if s.hook and hasattr(s.hook, 'loop_'): s.hook.loop_(s, fr, cfg, h, hd, defs, back)
        finally: s.probe -= 1
        if peel:
            # nothing at first, an object afterwards: the first trip is taken apart
            back, leave = s.region(fr, cfg, h, [(None, entry)], body, h.name, rets)
            for p, t, x in leave: outs.append((p, t, x))
            for p, x in back: s.loop(fr, cfg, h, s.enter(fr, h, p, x), rets, outs, True)
            return
        hd, defs = header(cands)
        # anything that must hold for the final pass is known: run it for real
        s.headers.append((fr.f.file, h.insts[0].line, len(cands)))
        back, leave = s.region(fr, cfg, h, [(None, hd)], body, h.name, rets)
        if s.hook and hasattr(s.hook, 'trips') and not s.probe: s.hook.trips(s, fr, h, hd, defs, [s.enter(fr, h, p, x) for p, x in back])
        for p, t, x in leave: outs.append((p, t, x))
    def whole(s, st, e):
        """the object whose start the address is, when its extent is known"""
        if not isinstance(e, L): return None
        b, o = s.split(e)
        return b if b is not None and o == L(0) and st.ext.get(b) is not None else None
    def remap(s, fr, x, defs):
        """header atom -> its value at the end of the trip"""
        m = {}
        for a, v0, w in defs:
            if w[0] == '%': v = x.env.get((fr.ctx, w[1])); b0 = w[2]
            elif w[0] == 'x':
                c = x.mem.get((w[1], w[2])); wb = s.whole(x, c[0]) if c else None; b0 = None
                v = x.ext[wb] if wb is not None else None
            else:
                c = x.mem.get((w[1], w[2])); v = c[0] if c else None; b0 = w[3]
            if not isinstance(v, L): v = None
            elif b0 is not None:
                b, o = s.split(v); v = o if b == b0 else None
            else:
                i = s.byid[a]
                if i.lo != -INF:
                    # the machine value as the header reads it
                    w_ = (i.hi - i.lo + 1).bit_length() - 1
                    if i.hi - i.lo + 1 == 1 << w_ and w_ in (8, 16, 32, 64): v = s.norm(x, v, w_, i.lo < 0)
            m[a] = v if v is not None else s.A(('lost', a), s.byid[a].lo, s.byid[a].hi)
        return m
    def holds(s, entry, q, defs):
        m = {}
        for a, v0, w in defs:
            i = s.byid[a]; v = v0
            if w[0] != 'x' and w[-1] is None and i.lo != -INF:
                w_ = (i.hi - i.lo + 1).bit_length() - 1
                if i.hi - i.lo + 1 == 1 << w_ and w_ in (8, 16, 32, 64): v = s.norm(entry, v0, w_, i.lo < 0)
            m[a] = v
        return s.ge0(entry, apply(q, m))
    def candidates(s, fr, cfg, h, entry, hd, defs, back, leave):
        C = []; seen = set()
        def put(q, lim=5):
            if not q.t: return
            t, c = tighten(q.t, q.c); q = L(c, t)
            k = q.key()
            if k not in seen and len(q.t) <= lim: seen.add(k); C.append(q)
        own = set(a for a, v, w in defs)
        # how each value moves on each trip
        deltas = {}
        for x in back:
            m = s.remap(fr, x, defs)
            for a, v0, w in defs:
                d = m[a] - L(0, {a: 1})
                deltas.setdefault(a, set()).add(d.c if d.const() else None)
        steps = set(abs(k) for ds in deltas.values() for k in ds if k) | {1}
        for a, v0, w in defs:
            e = L(0, {a: 1})
            put(e - v0); put(v0 - e)
            put(e)
            l, hi_ = s.interval(v0)
            if l > -(1 << 32): put(e + -int(l))
            if hi_ < 1 << 32: put(-e + int(hi_))
            if w[0] != 'x' and w[-1] is not None:
                # text that is walked ends at its NUL
                for cb, co, cv in entry.cont:
                    if cb == w[-1] and cv == L(0): put(co - e)
        mine = [(a, v0) for a, v0, w in defs]
        for i, (a, va) in enumerate(mine):
            for b, vb in mine[i + 1:]:
                A_ = L(0, {a: 1}) - va; B_ = L(0, {b: 1}) - vb
                ks = {(1, 1), (1, -1)}
                da = [k for k in deltas.get(a, ()) if k]; db = [k for k in deltas.get(b, ()) if k]
                for p in da:
                    for q in db: ks.add((q, -p))
                for p, q in ks:
                    e = A_.mul(p) + B_.mul(q)
                    put(e); put(-e)
                # the two values themselves
                d = L(0, {a: 1}) - L(0, {b: 1})
                put(d); put(-d)
        # guards met on the way round, and what the entry knows with the moving value in place of its start
        gs = set()
        for x in back + [y for p, t, y in leave]: gs |= set(c for c in x.cons if any(a in own for a in c.t))
        vis = set(own) | set(a for c in entry.cons for a in c.t) | set(a for v in entry.env.values() for a in vatoms(v)) | set(a for e in entry.ext.values() if e is not None for a in e.t)
        for g in list(gs):
            if any(a not in vis for a in g.t): continue
            put(g)
            for k in steps: put(g + k); put(g + (k - 1))
            # weaker on the boundary, and the complement's boundary
            put(-g + -1); put(-g)
        for a, v0 in mine:
            o = (v0 + -v0.c).one()
            if o is not None:
                for c in entry.cons:
                    if o in c.t: put(c.sub(o, L(-v0.c, {a: 1})))
        if len(mine) > 1:
            mp = {}
            for a, v0 in mine:
                o = v0.one()
                if o is not None: mp[o] = a
            for c in entry.cons:
                d = c
                for o, a in mp.items(): d = d.sub(o, L(0, {a: 1}))
                put(d)
        if s.hook and hasattr(s.hook, 'candidates'):
            for q in s.hook.candidates(s, fr, h, entry, hd, defs): put(q, 8)
        return C[:400]

    # -------------------------------------------------------------- one block
    def block(s, fr, b, st, rets):
        s.tick()
        states = [st]
        for ins in b.insts:
            if ins.op == 'phi': continue
            if ins.op in ('br', 'switch', 'ret', 'unreachable'): break
            nxt = []
            for x in states:
                r = s.step(fr, ins, x)
                if r is None: nxt.append(x)
                else: nxt += r
            states = nxt
            if not states: return []
            if len(states) > 4 * s.CAP:
                d = {}
                for x in states: d.setdefault((frozenset((k, v.key()) for k, v in x.env.items()), frozenset((k, c[0].key()) for k, c in x.mem.items()), x.cons, x.eqs, x.cont, frozenset(m for m in x.mark if m[0] != 'w')), x)
                states = list(d.values())
        t = b.insts[-1]; out = []
        for x in states:
            if t.op == 'ret':
                v = s.val(fr, x, t.a[0]) if t.a else None
                if s.hook and hasattr(s.hook, 'ret') and fr.depth == 0 and not s.probe: s.hook.ret(s, fr, t, x, v)
                rets.append((x, v))
            elif t.op == 'br':
                if len(t.aux) == 1: out.append((b, fr.f.blocks[t.aux[0]], x))
                else:
                    c = s.cond(s.val(fr, x, t.a[0]))
                    y = x.copy()
                    for n in s.assume(y, c, True): out.append((b, fr.f.blocks[t.aux[0]], n))
                    for n in s.assume(x, c, False): out.append((b, fr.f.blocks[t.aux[1]], n))
            elif t.op == 'switch':
                v = s.val(fr, x, t.a[0]); d, cs = t.aux; w = t.ty.w
                rest = [x]
                for k, l in cs:
                    c = Cmp('eq', v, L(k), w)
                    for n in s.assume(x.copy(), c, True): out.append((b, fr.f.blocks[l], n))
                    rest = [m for y in rest for m in s.assume(y, Cmp('eq', v, L(k), w), False)][:8]
                for y in rest: out.append((b, fr.f.blocks[d], y))
        return out
    def cond(s, v): return v
    def b01(s, fr, ins, st, v, then):
        """a comparison used as a number"""
        out = []
        for val in (True, False):
            for n in s.assume(st.copy(), v, val): then(n, L(1 if val else 0)); out.append(n)
        return out
    def step(s, fr, ins, st):
        op = ins.op
        if op == 'alloca':
            a = s.atom(('al', fr.ctx, ins.uid), 1 << 12, 1 << 62, ptr=True)
            n = s.val(fr, st, ins.a[0])
            st.ext[a] = n.mul(sizeof(ins.aux))
            s.havoc(st, a); st.mark = st.mark - {('w', a)}
            st.env[(fr.ctx, ins.res)] = L(0, {a: 1}); return None
        if op == 'load':
            p = s.val(fr, st, ins.a[0])
            if not isinstance(p, L): p = s.A(('bad', fr.ctx, ins.uid))
            if ins.ty.k == 'int' and ins.ty.w == 8 and st.cont:
                # a known byte further on: is this the one?
                b, off = s.split(p); out = []
                for cb, co, cv in sorted(st.cont, key=lambda x: (x[0], x[1].key(), x[2].key())):
                    if cb != b or not (cv.const() and cv.c == 0): continue
                    d = co - off
                    if d.const() or not s.ge0(st, d) or s.ge0(st, d + -1): continue
                    n = st.copy()
                    if s.addeq(n, d):
                        n.env[(fr.ctx, ins.res)] = s.load(fr, ins, n, p_after(s, n, fr, ins), ins.ty); out.append(n)
                    if not s.addge(st, d + -1): return out
                if out:
                    st.env[(fr.ctx, ins.res)] = s.load(fr, ins, st, p_after(s, st, fr, ins), ins.ty); out.append(st)
                    return out
            st.env[(fr.ctx, ins.res)] = s.load(fr, ins, st, p, ins.ty); return None
        if op == 'store':
            p = s.val(fr, st, ins.a[1]); v = s.val(fr, st, ins.a[0])
            if isinstance(v, Cmp): return s.b01(fr, ins, st, v, lambda n, x: s.store(fr, ins, n, p, x, ins.ty))
            if ins.ty.k == 'int' and ins.ty.w == 8 and v.const() and v.c > 127: v = L(v.c - 256)
            if ins.ty.k == 'int' and ins.ty.w < 64 and not v.const() and not s.inrange(st, v, ins.ty.w, True):
                # cells of narrow type hold their signed value
                v = s.norm(st, v, ins.ty.w, True)
            elif ins.ty.k == 'int' and ins.ty.w == 64 and not v.const() and not s.inrange(st, v, 64, False) and not s.inrange(st, v, 64, True): v = s.norm(st, v, 64, False)
            elif ins.ty.k not in ('int', 'ptr'): v = s.A(('f', fr.ctx, ins.uid))
            s.store(fr, ins, st, p, v, ins.ty); return None
        if op == 'gep':
            base = s.val(fr, st, ins.a[0]); idx = [s.val(fr, st, x) for x in ins.a[1:]]
            st.env[(fr.ctx, ins.res)] = s.gepval(fr, st, base, ins.aux, idx, ins); return None
        if op == 'icmp':
            x = s.val(fr, st, ins.a[0]); y = s.val(fr, st, ins.a[1]); p, ty = ins.aux
            w = 0 if ty.k == 'ptr' else ty.w
            if isinstance(x, Cmp) or isinstance(y, Cmp):
                if isinstance(x, Cmp) and isinstance(y, L) and y.const() and p in ('eq', 'ne'):
                    r = x if (y.c & 1 != 0) == (p == 'eq') else Cmp(NEG[x.p], x.x, x.y, x.w)
                    st.env[(fr.ctx, ins.res)] = r; return None
                st.env[(fr.ctx, ins.res)] = s.A(('i1', fr.ctx, ins.uid), 0, 1); return None
            st.env[(fr.ctx, ins.res)] = Cmp(p, x, y, w); return None
        if op in BIN: return s.binop(fr, ins, st)
        if op in CAST: return s.cast(fr, ins, st)
        if op == 'select':
            c = s.val(fr, st, ins.a[0]); out = []
            n = st.copy()
            for x in s.assume(n, c, True): x.env[(fr.ctx, ins.res)] = s.val(fr, x, ins.a[1]); out.append(x)
            for x in s.assume(st, c, False): x.env[(fr.ctx, ins.res)] = s.val(fr, x, ins.a[2]); out.append(x)
            return out
        if op == 'call': return s.call(fr, ins, st)
        if op == 'freeze': st.env[(fr.ctx, ins.res)] = s.val(fr, st, ins.a[0]); return None
        if ins.res is not None:
            st.env[(fr.ctx, ins.res)] = s.intatom((op, fr.ctx, ins.uid), ins.ty) if ins.ty is not None else s.A((op, fr.ctx, ins.uid))
        return None
    def binop(s, fr, ins, st):
        op = ins.op; x = s.val(fr, st, ins.a[0]); y = s.val(fr, st, ins.a[1]); key = (fr.ctx, ins.res)
        if ins.ty.k != 'int': st.env[key] = s.A(('f', fr.ctx, ins.uid)); return None
        w = ins.ty.w
        if w == 1 and (isinstance(x, Cmp) or isinstance(y, Cmp)):
            if op == 'xor' and isinstance(x, Cmp) and isinstance(y, L) and y.const() and y.c & 1: st.env[key] = Cmp(NEG[x.p], x.x, x.y, x.w); return None
            out = []
            for a in (True, False):
                for n in s.assume(st.copy(), x, a):
                    for b in (True, False):
                        for m in s.assume(n.copy(), y, b):
                            m.env[key] = L(int({'and': a and b, 'or': a or b, 'xor': a != b}.get(op, False))); out.append(m)
            return out
        if not isinstance(x, L) or not isinstance(y, L): st.env[key] = s.intatom((op, fr.ctx, ins.uid), ins.ty); return None
        r = None
        if op == 'add': r = x + y
        elif op == 'sub': r = x - y
        elif op == 'mul':
            if y.const(): r = x.mul(y.c)
            elif x.const(): r = y.mul(x.c)
            else:
                a = s.norm(st, x, w, False); b = s.norm(st, y, w, False)
                r = s.intatom(('mul', a.key(), b.key()), ins.ty)
        elif op == 'shl':
            if y.const() and 0 <= y.c < w: r = x.mul(1 << y.c)
            else:
                r = s.fresh(fr, ins, w, op)
                if x.const() and 0 < x.c < 1 << (w - 1):
                    y = s.norm(st, y, w, False); lo, hi = s.interval(y)
                    for k in range(w):
                        if hi <= k or s.ge0(st, -y + k):
                            if x.c << k < 1 << (w - 1): r = s.A(('shl', fr.ctx, ins.uid, 'b'), x.c << int(max(lo, 0)), x.c << k)
                            break
        elif op in ('lshr', 'udiv', 'urem', 'sdiv', 'srem', 'ashr'):
            sg = op in ('sdiv', 'srem', 'ashr')
            a = s.norm(st, x, w, sg); b = s.norm(st, y, w, sg)
            if op in ('lshr', 'ashr'):
                b = L(1 << b.c) if b.const() and 0 <= b.c < w else None
            if b is not None and a.const() and b.const() and b.c > 0 and a.c >= 0:
                r = L(a.c % b.c if op.endswith('rem') else a.c // b.c)
            elif b is not None and b.const() and b.c > 0 and s.ge0(st, a):
                q = s.atom(('q', a.key(), b.c), 0, (1 << w) - 1); Q = L(0, {q: 1})
                s.addge(st, a - Q.mul(b.c)); s.addge(st, Q.mul(b.c) - a + (b.c - 1))
                r = a - Q.mul(b.c) if op.endswith('rem') else Q
                if sg and op == 'sdiv' and b.c > 1 and all(k % b.c == 0 for k in a.t.values()) and a.c % b.c == 0: r = L(a.c // b.c, {z: k // b.c for z, k in a.t.items()})
            elif b is not None and b.const() and b.c > 0 and op == 'sdiv' and a.c % b.c == 0 and all(k % b.c == 0 for k in a.t.values()):
                r = L(a.c // b.c, {z: k // b.c for z, k in a.t.items()})
            elif b is not None and op in ('urem', 'udiv') and s.ge0(st, b + -1):
                if op == 'urem':
                    # small multiples are told apart
                    out = []
                    n = st.copy()
                    if s.addge(n, b - a + -1): n.env[key] = a; out.append(n)
                    n = st.copy()
                    if s.addge(n, a - b) and s.addge(n, b.mul(2) - a + -1): n.env[key] = a - b; out.append(n)
                    if s.addge(st, a - b.mul(2)):
                        r = s.A(('rem', a.key(), b.key()), 0, (1 << w) - 1)
                        s.addge(st, b - r + -1); st.env[key] = r; out.append(st)
                    return out
                r = s.A(('div', a.key(), b.key()), 0, (1 << w) - 1); s.addge(st, a - r)
            else: r = s.fresh(fr, ins, w, op)
        elif op == 'and':
            if x.const(): x, y = y, x
            if y.const():
                m = y.c & ((1 << w) - 1)
                if x.const(): r = L(x.c & m)
                elif m & (m + 1) == 0 and m:
                    # low bits: remainder by a power of two
                    k = m + 1
                    if s.inrange(st, x, w, False) and s.ge0(st, -x + m): r = x
                    elif w > 1 and k < 1 << w:
                        a = s.norm(st, x, w, False)
                        q = s.atom(('q', a.key(), k), 0, (1 << w) - 1); Q = L(0, {q: 1})
                        s.addge(st, a - Q.mul(k)); s.addge(st, Q.mul(k) - a + (k - 1)); r = a - Q.mul(k)
                    else: r = x
                else:
                    r = s.A(('and', x.key(), m), 0, m) if m < 1 << (w - 1) else s.A(('and', x.key(), m), *s.bounds(w, False))
            else:
                r = s.A(('and', x.key(), y.key()), *s.bounds(w, False))
                for z in (x, y):
                    if s.inrange(st, z, w, False): s.addge(st, z - r)
        elif op in ('or', 'xor'):
            if x.const() and y.const(): r = L((x.c | y.c) if op == 'or' else (x.c ^ y.c))
            elif y.const() and y.c == 0: r = x
            elif op == 'xor' and y.const() and y.c in (-1, (1 << w) - 1): r = -x + -1
            else:
                lo, hi = s.interval(x); l2, h2 = s.interval(y)
                if (lo >= 0 or s.ge0(st, x)) and (l2 >= 0 or s.ge0(st, y)):
                    lo = max(lo, 0); l2 = max(l2, 0); hi = min(hi, (1 << w) - 1); h2 = min(h2, (1 << w) - 1)
                    m = (1 << max(int(hi).bit_length(), int(h2).bit_length())) - 1
                    if len(x.t) + len(y.t) > 2: m = next((k for k in (1, 3, 7, 15, 31, 63, 127, 255, 65535) if k < m and s.ge0(st, -x + k) and s.ge0(st, -y + k)), m)
                    r = s.A((op, x.key(), y.key()), max(lo, l2) if op == 'or' else 0, m)
                else: r = s.A((op, x.key(), y.key()), *s.bounds(w, w < 64))
        else: r = s.fresh(fr, ins, w, op)
        st.env[key] = r
        return None
    def fresh(s, fr, ins, w, tag):
        if w == 64: return s.A((tag, fr.ctx, ins.uid), 0, (1 << 64) - 1)
        return s.A((tag, fr.ctx, ins.uid), *s.bounds(w, True))
    def cast(s, fr, ins, st):
        op = ins.op; x = s.val(fr, st, ins.a[0]); key = (fr.ctx, ins.res)
        if op in ('ptrtoint', 'inttoptr', 'bitcast'): st.env[key] = x; return None
        if op == 'zext':
            w = ins.aux.w
            if isinstance(x, Cmp): return s.b01(fr, ins, st, x, lambda n, v: n.env.__setitem__(key, v))
            st.env[key] = s.norm(st, x, w, False); return None
        if op == 'sext':
            w = ins.aux.w
            if isinstance(x, Cmp): return s.b01(fr, ins, st, x, lambda n, v: n.env.__setitem__(key, -v))
            st.env[key] = s.norm(st, x, w, True); return None
        if op == 'trunc':
            if isinstance(x, L):
                if ins.ty.w == 1:
                    if s.inrange(st, x, 1, False): st.env[key] = x
                    else: st.env[key] = s.A(('t1', fr.ctx, ins.uid), 0, 1)
                elif x.const(): st.env[key] = s.norm(st, x, ins.ty.w, True)
                else: st.env[key] = x
            else: st.env[key] = x
            return None
        st.env[key] = s.intatom((op, fr.ctx, ins.uid), ins.ty) if ins.ty.k == 'int' else s.A((op, fr.ctx, ins.uid))
        return None

    # -------------------------------------------------------------- calls
    def call(s, fr, ins, st):
        cal = ins.aux['callee']; key = (fr.ctx, ins.res) if ins.res is not None else None
        args = []
        for v in ins.a:
            x = s.val(fr, st, v)
            if isinstance(x, Cmp): x = s.A(('i1', fr.ctx, ins.uid), 0, 1)
            args.append(x)
        g = None; name = None
        if cal[0] == 'g': name = cal[1]; g = s.prog.resolve(fr.f.mod, name)
        elif cal[0] == '%':
            e = s.val(fr, st, cal)
            o = e.one() if isinstance(e, L) else None
            if o is not None and s.byid[o].fn is not None:
                t = s.byid[o].fn
                if isinstance(t, str): name = t
                else: g = t; name = t.name
        if ins.aux.get('noreturn') and (g is None or g.decl): return []
        if name is not None and name.startswith('llvm.'):
            name = name.split('.')[1] if name.startswith(('llvm.mem', 'llvm.va')) else name
            if name.startswith('va_'): name = 'llvm.' + name
        if s.hook and hasattr(s.hook, 'call'):
            r = s.hook.call(s, fr, ins, st, name, args)
            if r is not None: return s.rets(key, r)
        if name in s.models:
            r = s.models[name](s, fr, ins, st, args)
            if r is not None:
                if r is not True: return s.rets(key, r)
        if g is not None and not g.decl and fr.depth < s.MAXDEPTH and g.name not in fr.chain and g is not fr.f and name not in s.opaque and s.inline(fr, g):
            s.stats['calls'] += 1
            sub = Frame(g, fr.ctx + '/%d:%s' % (ins.uid, g.name), fr.depth + 1, fr.chain + [fr.f.name], args)
            res = s.call_fn(sub, [st], args)
            return s.rets(key, res)
        return s.rets(key, s.unknown(fr, ins, st, name, args))
    def rets(s, key, res):
        out = []
        for st, v in res:
            if key is not None: st.env[key] = v if v is not None else s.A(('void',))
            out.append(st)
        return out
    def unknown(s, fr, ins, st, name, args):
        """an external function: may change what it is given the address of"""
        if name not in PURE:
            for a in args:
                if isinstance(a, L):
                    b, off = s.split(a)
                    if b is not None and s.byid[b].fn is None: s.escape(st, b)
        return [(st, s.retval(fr, ins))]
    def escape(s, st, b, depth=0):
        n = s.byid[b].name
        if n[0] == 'g' and n[2] is not None and n[2].const: return
        if depth < 3:
            for k, c in list(st.mem.items()):
                if k[0] == b and isinstance(c[0], L):
                    b2, o = s.split(c[0])
                    if b2 is not None and b2 != b and s.byid[b2].fn is None: s.escape(st, b2, depth + 1)
        s.havoc(st, b)
    def retval(s, fr, ins):
        if ins.res is None: return None
        return s.intatom(('ret', fr.ctx, ins.uid), ins.ty)

def p_after(A, st, fr, ins):
    p = A.val(fr, st, ins.a[0])
    return p if isinstance(p, L) else A.A(('bad', fr.ctx, ins.uid))

def vatoms(v):
    if isinstance(v, L): return v.t
    if isinstance(v, Cmp): return list(v.x.t) + list(v.y.t)
    return ()

def sub1(x, a, v):
    if isinstance(x, L): return x.sub(a, v)
    if isinstance(x, Cmp): return Cmp(x.p, x.x.sub(a, v), x.y.sub(a, v), x.w)
    return x

def apply(q, m):
    """q with atoms replaced (simultaneously)"""
    r = L(q.c)
    for a, k in q.t.items():
        r = r + (m[a].mul(k) if a in m else L(0, {a: k}))
    return r

def mentions(v, name):
    if not isinstance(v, tuple): return False
    if v[0] == 'g': return v[1] == name
    if v[0] == 'cgep': return mentions(v[2], name)
    return False

def flat(g):
    """(element size, values) of a constant integer table"""
    x = g.init; t = g.ty
    if x is None or t.k != 'array' or t.elem.k != 'int': return None
    sz = sizeof(t.elem)
    if x[0] in ('cstr', 'cbin'):
        b = x[1] if isinstance(x[1], bytes) else bytes(x[1])
        v = [c - 256 if c > 127 else c for c in b]
        return (sz, (v + [0] * t.n)[:t.n])
    if x[0] == 'zero': return (sz, [0] * t.n)
    if x[0] == 'agg':
        v = []
        for e in x[1]:
            if isinstance(e[1], tuple): e = e[1]
            if e[0] == 'c': v.append(e[1])
            elif e[0] == 'zero': v.append(0)
            else: return None
        return (sz, v)
    return None

# ------------------------------------------------------------------ library models
MODELS = {}
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d

PURE = set('''strlen strcmp strncmp strcasecmp strncasecmp memcmp isspace isdigit isalpha isalnum isxdigit isprint ispunct toupper tolower __ctype_b_loc __ctype_toupper_loc
__ctype_tolower_loc u_log_write_ex u_strerror_r syslog strchr strrchr strstr getpid time rand random free u_free llvm.va_start llvm.va_end getpagesize sysconf close unlink
u_con_p_ctx u_log_set_syslog_facility inet_pton htons ntohs htonl ntohl u_remove strerror fopen fclose fputs puts printf fprintf fputc fwrite write send u_isnl strspn strcspn
u_socket listen bind connect setsockopt accept ftruncate munmap mkstemp link access stat open crypt hcreate'''.split())

def newobj(A, fr, ins, st):
    """the block this call site hands out: another one when the last is still known"""
    for k in range(4):
        a = A.atom(('h', fr.ctx, ins.uid) + ((k,) if k else ()), 1 << 12, 1 << 62, ptr=True)
        if a not in st.ext: break
    st.freed = st.freed - {a}
    return a

def heap(A, fr, ins, st, size, zero=False):
    """new block or NULL"""
    out = []
    n = st.copy()
    out.append((n, L(0)))
    a = newobj(A, fr, ins, st)
    A.havoc(st, a); st.mark = st.mark - {('w', a)}
    st.ext[a] = size
    # an object that exists is smaller than half the address space
    A.addge(st, -size + ((1 << 62) - 1))
    st.mark = st.mark | {('zero', a)} if zero else st.mark - {('zero', a)}
    out.append((st, L(0, {a: 1})))
    return out

@model('u_malloc', 'malloc', 'u_zalloc')
def m_malloc(A, fr, ins, st, args):
    return heap(A, fr, ins, st, A.norm(st, args[0], 64, False), A.prog.calleename(ins) == 'u_zalloc')

@model('u_calloc', 'calloc')
def m_calloc(A, fr, ins, st, args):
    x = A.norm(st, args[0], 64, False); y = A.norm(st, args[1], 64, False)
    if y.const(): sz = x.mul(y.c)
    elif x.const(): sz = y.mul(x.c)
    else: sz = A.A(('mul', x.key(), y.key()), 0, INF)
    return heap(A, fr, ins, st, sz, True)        # calloc fails by itself when the product does not fit

@model('u_realloc', 'realloc')
def m_realloc(A, fr, ins, st, args):
    sz = A.norm(st, args[1], 64, False)
    ob, oo = A.split(args[0])
    fail = st.copy()
    out = [(fail, L(0))]
    a = newobj(A, fr, ins, st)
    if ob is not None:
        cells = {k[1]: c for k, c in st.mem.items() if k[0] == ob}; cont = [x for x in st.cont if x[0] == ob]
        A.havoc(st, a)
        for o, c in cells.items():
            if A.ge0(st, sz + -(o + c[1])): st.mem[(a, o)] = c
        for (b, o, v) in cont:
            if A.ge0(st, sz - o + -1): st.cont = st.cont | {(a, o, v)}
        st.mark = st.mark | {('w', a)}
        st.freed = st.freed | {ob}
    st.ext[a] = sz
    A.addge(st, -sz + ((1 << 62) - 1))
    out.append((st, L(0, {a: 1})))
    return out

@model('free', 'u_free')
def m_free(A, fr, ins, st, args):
    b, o = A.split(args[0]) if isinstance(args[0], L) else (None, None)
    if b is not None: st.freed = st.freed | {b}
    return [(st, None)]

@model('strlen')
def m_strlen(A, fr, ins, st, args):
    b, off = A.split(args[0])
    for m in st.mark:
        if m[0] == 'len' and m[2] == args[0]: return [(st, m[1])]      # the text has not changed since
    n = A.A(('len', fr.ctx, ins.uid), 0, (1 << 62) - 1)
    if b is not None:
        e = st.ext.get(b)
        if e is not None: A.addge(st, e - off - n + -1)
        for cb, co, cv in st.cont:
            # a terminator known to be there bounds the length
            if cb == b and cv.const() and cv.c == 0 and A.ge0(st, co - off): A.addge(st, co - off - n)
        st.mark = st.mark | {('len', n, args[0])}
        st.cont = st.cont | {(b, off + n, L(0))}
    return [(st, n)]

@model('u_strdup', 'strdup')
def m_strdup(A, fr, ins, st, args):
    n = A.A(('len', fr.ctx, ins.uid), 0, (1 << 62) - 1)
    for m in st.mark:
        if m[0] == 'len' and m[2] == args[0]: n = m[1]
    r = heap(A, fr, ins, st, n + 1)
    x, p = r[1]
    b, o = A.split(p)
    x.cont = x.cont | {(b, n, L(0))}; x.mark = x.mark | {('len', n, p)}
    # same length as the source
    sb, so = A.split(args[0])
    if sb is not None:
        for y in (r[0][0], x):
            for cb, co, cv in y.cont:
                if cb == sb and cv.const() and cv.c == 0 and A.ge0(y, co - so): A.addge(y, co - so - n)
            y.mark = y.mark | {('len', n, args[0])}
    return r

@model('memcpy', 'memmove', 'strncpy')
def m_memcpy(A, fr, ins, st, args):
    n = A.norm(st, args[2], 64, False)
    src = args[1]
    db, do = A.access(fr, ins, st, args[0], n, 'w')
    if A.prog.calleename(ins) != 'strncpy': sb, so = A.access(fr, ins, st, src, n, 'r')
    else: sb, so = A.split(src)
    keep = []
    if sb is not None and n.const() and so.const():
        keep = [(k[1] - so.c, c) for k, c in st.mem.items() if k[0] == sb and so.c <= k[1] and k[1] + c[1] <= so.c + n.c]
    cont = []
    if sb is not None and A.prog.calleename(ins) != 'strncpy':
        cont = [(co - so + do, cv) for cb, co, cv in st.cont if cb == sb and A.ge0(st, co - so) and A.ge0(st, so + n - co + -1)]
    if db is not None:
        A.clobber(st, db, do, n)
        if do.const():
            for o, c in keep: st.mem[(db, do.c + o)] = c
        st.cont = st.cont | {(db, o, v) for o, v in cont}
    return [(st, args[0])]

@model('memset')
def m_memset(A, fr, ins, st, args):
    n = A.norm(st, args[2], 64, False)
    db, do = A.access(fr, ins, st, args[0], n, 'w')
    if db is not None: A.clobber(st, db, do, n)
    return [(st, args[0])]

@model('vsnprintf', 'snprintf')
def m_snprintf(A, fr, ins, st, args):
    n = A.norm(st, args[1], 64, False)
    rc = A.A(('rc', fr.ctx, ins.uid), -1, (1 << 31) - 1)
    db, do = A.access(fr, ins, st, args[0], n, 'w')
    out = []
    # failed: anything may have been written
    x = st.copy()
    if A.addge(x, n + -1):
        if db is not None: A.clobber(x, db, do, n)
        if A.addeq(x, rc + 1): out.append((x, L(-1)))
    x = st.copy()
    if A.addeq(x, n) and A.addeq(x, rc + 1): out.append((x, L(-1)))
    # nothing written when the size is zero
    y = st.copy()
    if A.addeq(y, n) and A.addge(y, rc): out.append((y, rc))
    # fits
    y = st.copy()
    if A.addge(y, rc) and A.addge(y, n - rc + -1):
        if db is not None:
            A.clobber(y, db, do, rc + 1); y.cont = y.cont | {(db, do + rc, L(0))}
        out.append((y, rc))
    # truncated
    if A.addge(st, n + -1) and A.addge(st, rc - n):
        if db is not None:
            A.clobber(st, db, do, n); st.cont = st.cont | {(db, do + n + -1, L(0))}
        out.append((st, rc))
    return out

@model('strlcpy', 'u_strlcpy_', 'strlcat')
def m_strlcpy(A, fr, ins, st, args):
    n = A.norm(st, args[2], 64, False)
    db, do = A.access(fr, ins, st, args[0], n, 'w')
    if db is not None: A.clobber(st, db, do, n)
    r = A.A(('len', fr.ctx, ins.uid), 0, (1 << 62) - 1)
    if db is None or A.prog.calleename(ins) == 'strlcat': return [(st, r)]
    out = []
    y = st.copy()       # copied, cut short, or there was no room at all
    if A.addge(y, n - r + -1): y.cont = y.cont | {(db, do + r, L(0))}; out.append((y, r))
    y = st.copy()
    if A.addge(y, r - n) and A.addge(y, n + -1): y.cont = y.cont | {(db, do + n + -1, L(0))}; out.append((y, r))
    if A.addge(st, -n): out.append((st, r))
    return out

@model('strcspn', 'strspn')
def m_span(A, fr, ins, st, args):
    b, off = A.split(args[0]); r = A.A(('span', fr.ctx, ins.uid), 0, (1 << 62) - 1)
    if b is not None:
        e = st.ext.get(b)
        if e is not None: A.addge(st, e - off - r + -1)
        for cb, co, cv in st.cont:
            if cb == b and cv.const() and cv.c == 0 and A.ge0(st, co - off): A.addge(st, co - off - r)
    return [(st, r)]

@model('read', 'recv', 'fread')
def m_read(A, fr, ins, st, args):
    nm = A.prog.calleename(ins)
    if nm == 'fread':
        p = args[0]; n = A.norm(st, args[1], 64, False); k = A.norm(st, args[2], 64, False)
        tot = n.mul(k.c) if k.const() else k.mul(n.c) if n.const() else None
    else: p = args[1]; tot = A.norm(st, args[2], 64, False)
    if tot is not None: db, do = A.access(fr, ins, st, p, tot, 'w')
    else: db, do = A.split(p)
    if db is not None:
        if tot is not None: A.clobber(st, db, do, tot)
        else: A.havoc(st, db)
    if nm == 'fread':
        r = A.A(('rc', fr.ctx, ins.uid), 0, (1 << 62) - 1); A.addge(st, A.norm(st, args[2], 64, False) - r)
        return [(st, r)]
    r = A.A(('rc', fr.ctx, ins.uid), -1, (1 << 62) - 1)
    A.addge(st, tot - r)
    return [(st, r)]

@model('fgets')
def m_fgets(A, fr, ins, st, args):
    n = A.norm(st, args[1], 32, True)
    db, do = A.access(fr, ins, st, args[0], n, 'w')
    f = st.copy()
    if db is not None:
        A.havoc(f, db)
        A.clobber(st, db, do, n)
        ln = A.A(('len', fr.ctx, ins.uid), 0, (1 << 31) - 1)
        A.addge(st, n - ln + -1); st.cont = st.cont | {(db, do + ln, L(0))}
    return [(f, L(0)), (st, args[0])]

@model('mmap')
def m_mmap(A, fr, ins, st, args):
    f = st.copy()
    out = [(f, L(-1))]
    b, o = A.split(args[0])
    if not A.addge(st, A.norm(st, args[1], 64, False) + -1): return out       # an empty mapping is refused
    if b is not None: out.append((st, args[0]))      # a fixed mapping
    else:
        r = heap(A, fr, ins, st, A.norm(st, args[1], 64, False))
        out.append(r[1])
    return out

@model('ftruncate')
def m_ftruncate(A, fr, ins, st, args):
    f = st.copy(); out = [(f, L(-1))]
    n = A.norm(st, args[1], 64, False)        # a negative length (refused) is a huge one
    if A.addge(st, -n + ((1 << 61) - 1)):      # what a file can be
        out.append((st, L(0)))
    return out

@model('__errno_location')
def m_errno(A, fr, ins, st, args): return [(st, A.A('errno', 1 << 12, 1 << 62, ptr=True))]

@model('u_log_write_ex', 'u_con_p_ctx', 'syslog')
def m_log(A, fr, ins, st, args): return [(st, A.retval(fr, ins))]

@model('u_strerror_r')
def m_strerror(A, fr, ins, st, args):
    b, o = A.split(args[1])
    if b is not None: A.havoc(st, b)
    return [(st, A.retval(fr, ins))]

@model('sysconf', 'getpagesize')
def m_page(A, fr, ins, st, args): return [(st, A.A(('page',), 1, 1 << 30))]

def chars(A, fr, ins, st, args): return [(st, A.retval(fr, ins))]
for _n in ('isspace', 'isdigit', 'isalpha', 'isalnum', 'isxdigit', 'isprint', 'ispunct'): MODELS[_n] = chars
