"""Abstract interpretation of straight codecs: every value is a constant, a finite function of one small
atom (a tabulated map over the atom's domain), a vector whose bits are constants or bits of atoms, or the
entry of a constant table at such a vector. Control depends on constants or on one atom; in the latter case
the atom's domain is partitioned between the branches."""
from ir import AnalysisError, sizeof, fieldoff

class Out(Exception): pass

def mask(w): return (1 << w) - 1

class S:
    __slots__ = ('mem', 'dom', 'n')
    def __init__(s): s.mem = {}; s.dom = {}; s.n = 0
    def copy(s):
        c = S(); c.mem = dict(s.mem); c.dom = dict(s.dom); c.n = s.n; return c

class Bits:
    STEPS = 40000
    def __init__(s, prog):
        s.prog = prog; s.alphabets = {}; s.nobj = 0; s.steps = 0; s.tables = {}; s.esize = {}; s.lookups = 0; s.problems = {}
    # values: ('k', n) ('fin', atom, ((x, n)...)) ('bits', (b0, b1...)) ('lk', table, bits) ('p', obj, off) ('top',)
    def fin(s, st, a, f): 
        t = tuple((x, f(x)) for x in sorted(st.dom[a]))
        vals = set(v for x, v in t)
        return ('k', next(iter(vals))) if len(vals) == 1 else ('fin', a, t)
    def bits(s, v, w):
        if v[0] == 'k': return tuple((v[1] >> i) & 1 for i in range(w))
        if v[0] == 'bits': return (v[1] + (0,) * w)[:w]
        if v[0] == 'fin':
            out = []; t = v[2]
            for i in range(w):
                col = [(n >> i) & 1 for x, n in t]
                if not any(col): out.append(0)
                elif all(col): out.append(1)
                else:
                    c = next((j for j in range(8) if all(((x >> j) & 1) == b for (x, n), b in zip(t, col))), None)
                    out.append((v[1], c) if c is not None else 'T')
            return tuple(out)
        return ('T',) * w
    def mk(s, b):
        return ('k', sum(x << i for i, x in enumerate(b))) if all(x in (0, 1) for x in b) and 'T' not in b else ('bits', tuple(b))
    def table(s, g):
        t = s.tables.get(g)
        if t is None:
            if not g.const or g.init is None: return None
            cells = s.flat(g.ty, g.init)
            if cells is None or len(set(n for n, v in cells)) != 1: return None
            t = [v for n, v in cells]; s.esize[g] = cells[0][0]
            if None in t: return None
            s.tables[g] = t
        return t
    def flat(s, ty, v):
        """the scalar cells of a constant: [(size, value)]"""
        if ty.k == 'int': return [(sizeof(ty), 0 if v[0] == 'zero' else v[1] if v[0] == 'c' else None)]
        kids = [ty.elem] * ty.n if ty.k == 'array' else ty.elems if ty.k == 'struct' else None
        if kids is None: return None
        if v[0] == 'cstr': vs = [('c', x) for x in v[1]]
        elif v[0] == 'zero': vs = [('zero',)] * len(kids)
        elif v[0] == 'agg': vs = [x for t, x in v[1]]
        else: return None
        out = []
        for t, x in zip(kids, vs):
            c = s.flat(t, x)
            if c is None: return None
            out += c
        return out
    def val(s, f, env, v):
        if v[0] == '%': return env[v[1]]
        if v[0] == 'c': return ('k', v[1])
        if v[0] == 'zero': return ('k', 0)
        if v[0] == 'g':
            g = f.mod.globals.get(v[1])
            return ('p', ('g', g), 0) if g is not None else ('top',)
        if v[0] == 'cgep':
            b = s.val(f, env, v[2])
            return s.gep(None, b, v[1], [('k', i[1]) if i[0] == 'c' else ('top',) for i in v[3]])
        return ('top',)
    def gep(s, st, b, t, idx):
        if b[0] != 'p': return ('top',)
        off = b[2]; first = True
        for ix in idx:
            if first: first = False; sc = sizeof(t); step = t
            elif t.k == 'struct':
                if ix[0] != 'k': return ('top',)
                off = off + fieldoff(t, ix[1]) if isinstance(off, int) else None; t = t.elems[ix[1]]
                if off is None: return ('top',)
                continue
            else: sc = sizeof(t.elem); t = t.elem
            if ix[0] == 'k':
                if isinstance(off, int): off += ix[1] * sc
                elif ix[1]: return ('top',)
            elif ix[0] in ('fin', 'bits') and off == 0: off = ('ix', sc, ix)
            else: return ('top',)
        return ('p', b[1], off)
    def load(s, st, p, ty):
        n = sizeof(ty); w = ty.w if ty.k == 'int' else 64
        if p[0] != 'p': return ('top',)
        if p[1][0] == 'g':
            t = s.table(p[1][1])
            if t is None: return ('top',)
            es = s.esize[p[1][1]]
            def at(i):
                if not 0 <= i < len(t): raise Out('entry %d of a table of %d is read' % (i, len(t)))
                return t[i] & mask(w)
            if es != n: return ('top',)
            s.lookups += 1
            if isinstance(p[2], int):
                if p[2] % es: return ('top',)
                return ('k', at(p[2] // es))
            _, sc, ix = p[2]
            if sc != es: return ('top',)
            if ix[0] == 'fin': return s.fin(st, ix[1], lambda x, d=dict(ix[2]): at(d[x] if d[x] < 1 << 63 else d[x] - (1 << 64)))
            b = ix[1]
            while b and b[-1] == 0 and isinstance(b[-1], int): b = b[:-1]
            if 'T' in b or len(b) > 16: return ('top',)
            for k in range(1 << len(b)):
                if all(b[i] not in (0, 1) or (k >> i) & 1 == b[i] for i in range(len(b))): at(k)
            return ('lk', p[1][1], b)
        if not isinstance(p[2], int): return ('top',)
        c = st.mem.get((p[1], p[2]))
        if c is not None and c[1] == n: return c[0]
        if c is None: s.note('bytes that were never written are read'); return ('top',)
        return ('top',)
    def note(s, msg): s.problems[msg] = 1
    def store(s, st, p, v, n):
        if p[0] != 'p' or not isinstance(p[2], int) or p[1][0] == 'g': raise AnalysisError('codec analysis: store to an unknown place')
        for d in range(-7, n):
            c = st.mem.get((p[1], p[2] + d))
            if c is not None and d + c[1] > 0: del st.mem[(p[1], p[2] + d)]
        st.mem[(p[1], p[2])] = (v, n)
    def bin(s, st, op, x, y, w):
        M = mask(w)
        def sg(v): return v - (1 << w) if v >> (w - 1) else v
        def con(a, b):
            a &= M; b &= M
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sg(a) >> min(b, w - 1)) & M
            if op == 'udiv': return a // b if b else 0
            if op == 'urem': return a % b if b else 0
            if op in ('sdiv', 'srem'):
                a, b = sg(a), sg(b)
                if not b: return 0
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return (q if op == 'sdiv' else a - q * b) & M
            raise AnalysisError('codec analysis: ' + op)
        if x[0] == 'k' and y[0] == 'k': return ('k', con(x[1], y[1]))
        if x[0] == 'p' or y[0] == 'p': return ('top',)
        at = set(v[1] for v in (x, y) if v[0] == 'fin')
        if len(at) == 1 and all(v[0] in ('fin', 'k') for v in (x, y)):
            a = next(iter(at)); dx = dict(x[2]) if x[0] == 'fin' else None; dy = dict(y[2]) if y[0] == 'fin' else None
            return s.fin(st, a, lambda v: con(dx[v] if dx else x[1], dy[v] if dy else y[1]))
        if x[0] in ('top', 'lk') or y[0] in ('top', 'lk'): return ('top',)
        a, b = s.bits(x, w), s.bits(y, w)
        if op in ('shl', 'lshr', 'ashr') and y[0] == 'k':
            k = y[1] & M
            if op == 'shl': return s.mk(((0,) * k + a)[:w])
            return s.mk(a[k:] + ((a[-1] if op == 'ashr' else 0),) * min(k, w))
        if op == 'mul' and y[0] == 'k' and y[1] > 0 and y[1] & (y[1] - 1) == 0: return s.mk(((0,) * (y[1].bit_length() - 1) + a)[:w])
        if op == 'udiv' and y[0] == 'k' and y[1] > 0 and y[1] & (y[1] - 1) == 0:
            k = y[1].bit_length() - 1; return s.mk(a[k:] + (0,) * k)
        if op == 'urem' and y[0] == 'k' and y[1] > 0 and y[1] & (y[1] - 1) == 0:
            k = y[1].bit_length() - 1; return s.mk(a[:k] + (0,) * (w - k))
        def isc(q, v): return isinstance(q, int) and q == v
        def one(p, q):
            if op == 'and': return 0 if isc(p, 0) or isc(q, 0) else q if isc(p, 1) else p if isc(q, 1) or p == q else 'T'
            if op == 'or': return 1 if isc(p, 1) or isc(q, 1) else q if isc(p, 0) else p if isc(q, 0) or p == q else 'T'
            if op == 'xor': return q if isc(p, 0) else p if isc(q, 0) else 0 if p == q and p != 'T' else (1 - p) ^ (1 - q) if isinstance(p, int) and isinstance(q, int) else 'T'
        if op in ('and', 'or', 'xor'): return s.mk(tuple(one(p, q) for p, q in zip(a, b)))
        if op == 'add' and all(isc(p, 0) or isc(q, 0) for p, q in zip(a, b)):
            op = 'or'; return s.mk(tuple(one(p, q) for p, q in zip(a, b)))
        return ('top',)
    def cast(s, st, op, v, w0, w):
        def con(n):
            n &= mask(w0)
            if op == 'trunc': return n & mask(w)
            if op == 'sext' and n >> (w0 - 1): return (n - (1 << w0)) & mask(w)
            return n
        if v[0] == 'k': return ('k', con(v[1]))
        if v[0] == 'fin':
            d = dict(v[2]); return s.fin(st, v[1], lambda x: con(d[x]))
        if v[0] == 'bits':
            b = s.bits(v, w0)
            if op == 'trunc': return s.mk(b[:w])
            return s.mk(b + ((b[-1] if op == 'sext' else 0),) * (w - w0))
        if v[0] == 'lk' and all(0 <= c < 128 for c in s.table(v[1])): return v
        return ('top',)
    def cmp(s, st, pred, x, y, w):
        def sg(v): return v - (1 << w) if v >> (w - 1) else v
        def con(a, b):
            a &= mask(w); b &= mask(w)
            if pred[0] == 's': a, b = sg(a), sg(b)
            p = pred[-2:]
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p])
        if x[0] == 'p' or y[0] == 'p':
            if x[0] == 'p' and y[0] == 'p' and x[1] == y[1] and isinstance(x[2], int) and isinstance(y[2], int): return ('k', con(x[2] + (1 << 40), y[2] + (1 << 40)))
            if pred in ('eq', 'ne') and (y == ('k', 0) or x == ('k', 0) or x[0] == y[0] == 'p'): return ('k', int(pred == 'ne'))
            return ('top',)
        if x[0] == 'k' and y[0] == 'k': return ('k', con(x[1], y[1]))
        at = set(v[1] for v in (x, y) if v[0] == 'fin')
        if len(at) == 1 and all(v[0] in ('fin', 'k') for v in (x, y)):
            a = next(iter(at)); dx = dict(x[2]) if x[0] == 'fin' else None; dy = dict(y[2]) if y[0] == 'fin' else None
            return s.fin(st, a, lambda v: con(dx[v] if dx else x[1], dy[v] if dy else y[1]))
        return ('top',)
    def refit(s, st, v):
        """a tabulated value under the present domain"""
        if v[0] == 'fin':
            d = dict(v[2]); return s.fin(st, v[1], lambda x: d[x])
        return v
    def run(s, f, args, st, depth=0):
        """[(state, return value)]"""
        if depth > 8: raise AnalysisError('codec analysis: calls too deep')
        env = {}
        for (t, nm, bv), v in zip(f.params, args): env[nm] = v
        work = [(f.entry, None, env, st)]; out = []
        while work:
            blk, prev, env, st = work.pop()
            newv = {}
            for i in blk.insts:
                if i.op != 'phi': break
                for v, l in i.a:
                    if l == prev: newv[i.res] = s.val(f, env, v)
            env.update(newv)
            for n, i in enumerate(blk.insts):
                if i.op == 'phi': continue
                s.steps += 1
                if s.steps > s.STEPS: raise AnalysisError('codec analysis: no end of %s in %d steps' % (f.name, s.STEPS))
                if i.op == 'br' or i.op == 'switch':
                    if i.op == 'br' and len(i.aux) == 1: work.append((f.blocks[i.aux[0]], blk.name, env, st)); break
                    c = s.refit(st, s.val(f, env, i.a[0]))
                    def to(k):
                        if i.op == 'br': return i.aux[0] if k & 1 else i.aux[1]
                        return next((l for v, l in i.aux[1] if (v - k) & mask(i.ty.w) == 0), i.aux[0])
                    if c[0] == 'k': work.append((f.blocks[to(c[1])], blk.name, env, st)); break
                    if c[0] != 'fin':
                        raise AnalysisError('codec analysis: %s:%d: the branch depends on more than one input character (%s)' % (f.file, i.line, str(c)[:60]))
                    parts = {}
                    for x, v in c[2]: parts.setdefault(to(v), set()).add(x)
                    for l, xs in parts.items():
                        q = st.copy(); q.dom[c[1]] = frozenset(xs)
                        work.append((f.blocks[l], blk.name, {k: s.refit(q, v) for k, v in env.items()}, q))
                    break
                if i.op == 'ret': out.append((st, s.refit(st, s.val(f, env, i.a[0])) if i.a else None)); break
                if i.op == 'unreachable': break
                if i.op == 'call':
                    rs = s.call(f, env, i, st, depth)
                    if rs is None: continue
                    if len(rs) == 1: st = rs[0][0]; env[i.res] = rs[0][1]; continue
                    # the rest of the block for every outcome
                    tail = Rest(blk, n + 1)
                    for q, rv in rs:
                        e = {k: s.refit(q, v) for k, v in env.items()}; e[i.res] = rv
                        work.append((tail, prev, e, q))
                    break
                s.step(f, env, i, st)
        return out
    def step(s, f, env, i, st):
        v = lambda k: s.refit(st, s.val(f, env, i.a[k]))
        if i.op == 'alloca': s.nobj += 1; env[i.res] = ('p', ('local', s.nobj, f.name), 0)
        elif i.op == 'load': env[i.res] = s.refit(st, s.load(st, v(0), i.ty))
        elif i.op == 'store': s.store(st, v(1), v(0), sizeof(i.ty))
        elif i.op == 'gep': env[i.res] = s.gep(st, v(0), i.aux, [s.refit(st, s.val(f, env, a)) for a in i.a[1:]])
        elif i.op == 'icmp': env[i.res] = s.cmp(st, i.aux[0], v(0), v(1), i.aux[1].w if i.aux[1].k == 'int' else 64)
        elif i.op in ('trunc', 'zext', 'sext'): env[i.res] = s.cast(st, i.op, v(0), i.aux.w, i.ty.w)
        elif i.op == 'select':
            c = v(0)
            if c[0] == 'k': env[i.res] = v(1) if c[1] & 1 else v(2)
            elif c[0] == 'fin' and v(1)[0] in ('k', 'fin') and v(2)[0] in ('k', 'fin') and all(q[0] == 'k' or q[1] == c[1] for q in (v(1), v(2))):
                a, b = v(1), v(2); d = dict(c[2]); da = dict(a[2]) if a[0] == 'fin' else None; db = dict(b[2]) if b[0] == 'fin' else None
                env[i.res] = s.fin(st, c[1], lambda x: (da[x] if da else a[1]) if d[x] & 1 else (db[x] if db else b[1]))
            else: env[i.res] = ('top',)
        elif i.op in ('freeze', 'bitcast'): env[i.res] = v(0)
        elif i.res is not None and len(i.a) == 2 and i.ty is not None and i.ty.k == 'int': env[i.res] = s.bin(st, i.op, v(0), v(1), i.ty.w)
        elif i.res is not None: env[i.res] = ('top',)
    def call(s, f, env, i, st, depth):
        nm = s.prog.calleename(i); a = [s.refit(st, s.val(f, env, x)) for x in i.a]
        g = s.prog.callee(i)
        if nm and nm.startswith('llvm.memcpy') or nm in ('memcpy', 'memmove') or nm and nm.startswith('llvm.memmove'):
            if a[2][0] != 'k': raise AnalysisError('codec analysis: %s:%d: the length of a copy depends on the input' % (f.file, i.line))
            if a[0][0] != 'p' or a[1][0] != 'p' or not isinstance(a[1][2], int): raise AnalysisError('codec analysis: copy of unknown bytes')
            cs = [(k, st.mem.get((a[1][1], a[1][2] + k))) for k in range(a[2][1])]
            for k, c in cs: s.store(st, ('p', a[0][1], a[0][2] + k), c[0] if c and c[1] == 1 else ('top',), 1)
            env[i.res] = a[0]; return None
        if nm and (nm.startswith('llvm.memset') or nm == 'memset'):
            if a[2][0] != 'k' or a[0][0] != 'p': raise AnalysisError('codec analysis: fill of unknown bytes')
            for k in range(a[2][1]): s.store(st, ('p', a[0][1], a[0][2] + k), a[1] if a[1][0] != 'k' else ('k', a[1][1] & 255), 1)
            env[i.res] = a[0]; return None
        if nm and nm.startswith('llvm.'): env[i.res] = ('top',); return None
        if g is None or g.decl or g.file != f.file:
            # something else of the library (logging): assumed not to touch the codec's buffers
            env[i.res] = ('top',); return None
        return s.run(g, a, st, depth + 1)

class Rest:
    """what is left of a block"""
    def __init__(s, blk, n): s.name = blk.name; s.insts = [i for i in blk.insts[n:]]
