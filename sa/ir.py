"""LLVM-IR front end: compiles the current /repo sources with clang and parses the textual IR.

clang -O0 (+mem2reg) keeps the program's own control flow; macros, types, calls and declarations are
resolved by the compiler, so nothing below depends on how the source is spelled.
"""
import os, re, subprocess, tempfile, shutil, hashlib, glob, sys, pickle

REPO = os.environ.get('SA_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))

class AnalysisError(Exception):
    pass

def tool(name):
    for c in ('/usr/lib/llvm-18/bin/' + name, '/usr/bin/' + name + '-18', '/usr/bin/' + name):
        if os.path.exists(c):
            return c
    w = shutil.which(name)
    if w: return w
    raise AnalysisError('tool %s not found' % name)

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'elem', 'n', 'name', 'elems', 'packed')
    def __init__(s, k, w=0, elem=None, n=0, name=None, elems=None, packed=False):
        s.k = k; s.w = w; s.elem = elem; s.n = n; s.name = name; s.elems = elems; s.packed = packed
    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.w
        if s.k == 'array': return '[%d x %r]' % (s.n, s.elem)
        if s.k == 'struct': return s.name or '{%s}' % ', '.join(map(repr, s.elems))
        return s.k

PTR = Ty('ptr'); VOID = Ty('void'); 
INTS = {}
def IntTy(w):
    if w not in INTS: INTS[w] = Ty('int', w)
    return INTS[w]
FLOATS = {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}

TOK = re.compile(r'''\s*(?:
   (?P<cstr>c"[^"]*")
 | (?P<qid>[%@]"[^"]*")
 | (?P<id>[%@][-a-zA-Z$._0-9]+)
 | (?P<meta>!"[^"]*"|![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<str>"[^"]*")
 | (?P<fp>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+)
 | (?P<word>[a-zA-Z_][-a-zA-Z0-9_.$]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*|:])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            raise AnalysisError('cannot tokenize IR: %r' % s[i:i+60])
        k = m.lastgroup
        t = m.group(k)
        if k == 'qid': t = t[0] + t[2:-1]; k = 'id'
        out.append((k, t)); i = m.end()
    return out

PARAM_ATTRS = set('''noundef signext zeroext nonnull noalias nocapture readonly writeonly readnone returned inreg
 nest immarg nofree noundef allocptr allocalign swiftself swifterror dead_on_unwind writable inalloca local_unnamed_addr
 dso_local unnamed_addr tail musttail notail nneg disjoint nuw nsw exact inbounds nusw fast nnan ninf nsz arcp contract afn reassoc
 volatile ccc fastcc coldcc internal private hidden protected default external common weak linkonce linkonce_odr weak_odr
 available_externally appending extern_weak constant global thread_local addrspace samesign'''.split())
PAREN_ATTRS = set('align dereferenceable dereferenceable_or_null sret byval byref preallocated elementtype range nofpclass captures memory allockind allocsize initializes'.split())

class P:
    """token-stream parser"""
    def __init__(s, toks, mod): s.t = toks; s.i = 0; s.mod = mod
    def peek(s, o=0): return s.t[s.i+o] if s.i+o < len(s.t) else (None, None)
    def next(s):
        x = s.peek(); s.i += 1; return x
    def at(s, v, o=0): return s.peek(o)[1] == v
    def eat(s, v):
        if s.at(v): s.i += 1; return True
        return False
    def expect(s, v):
        if not s.eat(v): raise AnalysisError('IR parse: expected %r at %r' % (v, s.t[s.i-3:s.i+6]))
    def skip_attrs(s):
        while True:
            k, v = s.peek()
            if k == 'word' and v in PARAM_ATTRS: s.i += 1
            elif k == 'word' and v in PAREN_ATTRS:
                s.i += 1
                if s.at('('): s.skip_paren()
                elif s.peek()[0] == 'num': s.i += 1
            elif k == 'attr' or k == 'str': s.i += 1
            else: return
    def skip_paren(s):
        d = 0
        while True:
            v = s.next()[1]
            if v == '(': d += 1
            elif v == ')':
                d -= 1
                if d == 0: return
            elif v is None: raise AnalysisError('IR parse: paren')
    def type(s):
        k, v = s.next()
        if k == 'word':
            if v == 'ptr':
                t = PTR
                if s.at('addrspace'): s.i += 1; s.skip_paren()
            elif v == 'void': t = VOID
            elif v[0] == 'i' and v[1:].isdigit(): t = IntTy(int(v[1:]))
            elif v in FLOATS: t = Ty('float', FLOATS[v]*8, name=v)
            elif v in ('metadata', 'label', 'opaque', 'token'): t = Ty(v)
            else: raise AnalysisError('IR parse: type %r' % v)
        elif k == 'id':
            t = s.mod.named(v)
        elif v == '[':
            n = int(s.next()[1]); s.expect('x'); e = s.type(); s.expect(']'); t = Ty('array', elem=e, n=n)
        elif v == '{' or v == '<':
            if v == '<':
                if s.at('{'):
                    s.i += 1; es = s.typelist('}'); s.expect('>'); t = Ty('struct', elems=es, packed=True)
                else:
                    n = int(s.next()[1]); s.expect('x'); e = s.type(); s.expect('>'); t = Ty('vector', elem=e, n=n)
            else:
                t = Ty('struct', elems=s.typelist('}'))
        else: raise AnalysisError('IR parse: type %r' % (v,))
        # function type
        if s.at('('):
            s.i += 1; ps = []; va = False
            while not s.eat(')'):
                if s.eat('...'): va = True
                else: ps.append(s.type()); s.skip_attrs()
                s.eat(',')
            t = Ty('func', elem=t, elems=ps, n=1 if va else 0)
        return t
    def typelist(s, end):
        es = []
        while not s.eat(end):
            es.append(s.type()); s.eat(',')
        return es
    def value(s, ty):
        """operand of type ty"""
        k, v = s.next()
        if k == 'id':
            return ('%', v[1:]) if v[0] == '%' else ('g', v[1:])
        if k == 'num': return ('c', int(v))
        if k == 'fp': 
            if ty is not None and ty.k == 'int': return ('c', int(v, 16))
            return ('f', v)
        if k == 'word':
            if v == 'null': return ('c', 0)
            if v == 'true': return ('c', 1)
            if v == 'false': return ('c', 0)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'none': return ('c', 0)
            if v == 'getelementptr':
                s.skip_attrs(); 
                while s.peek()[1] in ('inbounds','nuw','nusw','inrange'): 
                    s.i += 1
                    if s.at('('): s.skip_paren()
                s.expect('(')
                bty = s.type(); s.expect(','); s.type(); base = s.value(PTR); idx = []
                while s.eat(','):
                    s.skip_attrs(); it = s.type(); idx.append(s.value(it))
                s.expect(')')
                return ('cgep', bty, base, tuple(idx))
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                s.expect('('); t = s.type(); x = s.value(t); s.expect('to'); s.type(); s.expect(')')
                return x
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
                s.skip_attrs(); s.expect('('); t = s.type(); a = s.value(t); s.expect(','); t = s.type(); b = s.value(t); s.expect(')')
                return ('cbin', v, a, b)
            if v in ('icmp','fcmp'):
                s.next(); s.expect('('); t = s.type(); a = s.value(t); s.expect(','); t = s.type(); b = s.value(t); s.expect(')')
                return ('cbin', v, a, b)
            if v == 'blockaddress': s.skip_paren(); return ('undef',)
            if v == 'asm': 
                while not s.at('('): s.i += 1
                return ('asm',)
        if k == 'cstr': return ('cstr', unesc(v[2:-1]))
        if v == '[' or v == '{' or v == '<':
            end = {'[': ']', '{': '}', '<': '>'}[v]; es = []
            if v == '<' and s.at('{'):
                s.i += 1; end = '}'
            while not s.eat(end):
                t = s.type(); es.append((t, s.value(t))); s.eat(',')
            if v == '<' and end == '}': s.expect('>')
            return ('agg', es)
        raise AnalysisError('IR parse: value %r %r near %r' % (k, v, s.t[max(0,s.i-6):s.i+4]))
    def tv(s):
        t = s.type(); s.skip_attrs(); return t, s.value(t)

def unesc(x):
    out = bytearray(); i = 0
    while i < len(x):
        if x[i] == '\\':
            if x[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(x[i+1:i+3], 16)); i += 3
        else: out.append(ord(x[i])); i += 1
    return bytes(out)

# ---------------------------------------------------------------- IR objects
class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'blk', 'idx', 'fn', 'uid', 'aux', 'dbg')
    def __init__(s, op, res=None, ty=None, a=(), aux=None):
        s.op = op; s.res = res; s.ty = ty; s.a = a; s.aux = aux; s.line = 0; s.dbg = None
    def loc(s): return '%s:%d' % (s.fn.file, s.line)
    def __repr__(s): return '<%s %s %s L%d>' % (s.op, s.res, s.a, s.line)

class Block:
    __slots__ = ('name', 'insts', 'preds', 'succs', 'fn', 'phis')
    def __init__(s, name, fn): s.name = name; s.insts = []; s.preds = []; s.succs = []; s.fn = fn; s.phis = []

class Function:
    def __init__(s):
        s.blocks = {}; s.order = []; s.params = []; s.ret = VOID; s.internal = False; s.vararg = False
        s.vnames = {}; s.file = ''; s.line = 0; s.attrs = ''; s.decl = False; s.paramnames = {}
    def __repr__(s): return '<fn %s>' % s.name
    def insts(s):
        for b in s.order:
            for i in b.insts: yield i
    def calls(s):
        for i in s.insts():
            if i.op == 'call': yield i
    @property
    def entry(s): return s.order[0]

class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'internal', 'mod', 'decl')

class Module:
    def __init__(s, name):
        s.name = name; s.types = {}; s.globals = {}; s.functions = {}; s.decls = {}; s.meta = {}; s.attrgroups = {}
    def named(s, n):
        n = n[1:]
        t = s.types.get(n)
        if t is None: t = s.types[n] = Ty('struct', name=n, elems=None)
        return t

def sizeof(t):
    if t.k == 'int': return max(1, (t.w + 7) // 8) if t.w <= 8 else {16: 2, 32: 4, 64: 8, 128: 16}.get(t.w, (t.w + 7) // 8)
    if t.k == 'ptr': return 8
    if t.k == 'float': return t.w // 8
    if t.k == 'array': return t.n * sizeof(t.elem)
    if t.k == 'vector': return t.n * sizeof(t.elem)
    if t.k == 'struct':
        if t.elems is None: return 0
        o = 0; mx = 1
        for e in t.elems:
            al = 1 if t.packed else alignof(e)
            mx = max(mx, al); o = (o + al - 1) // al * al + sizeof(e)
        return (o + mx - 1) // mx * mx
    return 0

def alignof(t):
    if t.k == 'int': return min(16, sizeof(t))
    if t.k == 'ptr': return 8
    if t.k == 'float': return t.w // 8
    if t.k in ('array', 'vector'): return alignof(t.elem)
    if t.k == 'struct':
        if t.packed: return 1
        return max([alignof(e) for e in (t.elems or [])] or [1])
    return 1

def fieldoff(t, i):
    o = 0
    for j, e in enumerate(t.elems):
        al = 1 if t.packed else alignof(e)
        o = (o + al - 1) // al * al
        if j == i: return o
        o += sizeof(e)
    raise AnalysisError('field index')

CALLRE = re.compile(r'\bcall\b')
STRIPMETA = re.compile(r'(, ![a-zA-Z.]+ (?:![0-9]+|!\{\}|!DIExpression\(\)))+\s*$')
DBGRE = re.compile(r'!dbg !([0-9]+)')

def parse_module(path, modname):
    m = Module(modname)
    lines = open(path).read().split('\n')
    # metadata first
    metare = re.compile(r'^!([0-9]+) = (?:distinct )?(.*)$')
    for ln in lines:
        if ln.startswith('!'):
            g = metare.match(ln)
            if g: m.meta[g.group(1)] = g.group(2)
    for ln in lines:
        if ln.startswith('%') and ' = type ' in ln:
            name, rhs = ln.split(' = type ', 1)
            t = m.named(name.strip().replace('"', ''))
            if rhs.strip() == 'opaque': continue
            tt = P(tokenize(rhs), m).type()
            t.elems = tt.elems; t.packed = tt.packed
        elif ln.startswith('attributes '):
            g = re.match(r'attributes (#\d+) = \{(.*)\}', ln)
            if g: m.attrgroups[g.group(1)] = g.group(2)
    i = 0; n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('@'):
            parse_global(m, ln)
        elif ln.startswith('define '):
            j = i + 1
            while lines[j] != '}': j += 1
            parse_function(m, ln, lines[i+1:j]); i = j
        elif ln.startswith('declare '):
            f = parse_header(m, ln); f.decl = True; m.decls[f.name] = f
        i += 1
    return m

def parse_global(m, ln):
    g = Global(); 
    name, rhs = ln.split(' = ', 1)
    g.name = name[1:].strip('"'); g.mod = m
    words = rhs
    rhs = re.sub(r'(, (section "[^"]*"|comdat|align \d+|![a-z]+ !\d+))+\s*$', '', rhs)
    toks = tokenize(rhs); p = P(toks, m)
    g.internal = False; g.const = False; g.decl = False
    while p.peek()[0] == 'word' and p.peek()[1] in PARAM_ATTRS:
        w = p.next()[1]
        if w in ('internal', 'private'): g.internal = True
        if w == 'constant': g.const = True
        if w in ('external', 'extern_weak'): g.decl = True
        if w in ('constant', 'global'): break
    g.ty = p.type(); g.init = None
    if not g.decl:
        g.init = p.value(g.ty)
    m.globals[g.name] = g

def parse_header(m, ln):
    f = Function(); f.mod = m
    body = ln[7:].strip() if ln.startswith('define ') else ln[8:].strip()
    dbg = DBGRE.search(body)
    f.internal = bool(re.match(r'(dso_local )?(internal|private) ', body))
    at = body.index('@')
    # header tokens
    toks = tokenize(re.sub(r'!dbg !\d+', '', body).rstrip('{ ').rstrip())
    p = P(toks, m); p.skip_attrs(); f.ret = p.type(); p.skip_attrs()
    k, v = p.next(); f.name = v[1:]
    p.expect('('); ps = []
    idx = 0
    while not p.eat(')'):
        if p.eat('...'): f.vararg = True
        else:
            t = p.type(); byval = False
            # scan attrs
            while True:
                k, v = p.peek()
                if k == 'word' and v == 'byval': byval = True
                j = p.i; p.skip_attrs()
                if p.i == j: break
            nm = None
            if p.peek()[0] == 'id': nm = p.next()[1][1:]
            ps.append((t, nm if nm is not None else str(idx), byval)); idx += 1
        p.eat(',')
    f.params = ps
    rest = ' '.join(v for k, v in toks[p.i:])
    for a in re.findall(r'#\d+', rest): f.attrs += m.attrgroups.get(a, '')
    f.noreturn = 'noreturn' in f.attrs
    f.sp = dbg.group(1) if dbg else None
    if f.sp:
        md = m.meta.get(f.sp, '')
        g = re.search(r'line: (\d+)', md); f.line = int(g.group(1)) if g else 0
        g = re.search(r'file: !(\d+)', md)
        if g:
            fm = m.meta.get(g.group(1), ''); h = re.search(r'filename: "([^"]*)"', fm); f.file = h.group(1) if h else ''
            f.file = relfile(f.file)
    return f

def relfile(p):
    if p.startswith(REPO + '/'): return p[len(REPO)+1:]
    return p

VALMETA = re.compile(r'metadata (?:ptr|i\d+|float|double|x86_fp80|%[^ ]+|\[[^\]]*\]|\{[^}]*\}) (%?[-a-zA-Z$._0-9]+), metadata !(\d+)')

def parse_function(m, head, body):
    f = parse_header(m, head)
    m.functions[f.name] = f
    nparam = len(f.params)
    cur = None; pend = []
    lab = re.compile(r'^([-a-zA-Z$._0-9]+|"[^"]*"):')
    # join multi-line switch
    joined = []; buf = None
    for ln in body:
        s = ln.strip()
        if buf is not None:
            buf += ' ' + s
            if s.startswith(']'): joined.append(buf); buf = None
            continue
        if s.startswith('switch ') and not ']' in s: buf = s; continue
        joined.append(ln)
    uid = 0
    linecache = m.__dict__.setdefault('_lc', {})
    for ln in joined:
        s = ln.strip()
        if not s: continue
        if not ln.startswith(' '):
            g = lab.match(ln)
            if g:
                cur = Block(g.group(1).strip('"'), f); f.blocks[cur.name] = cur; f.order.append(cur); continue
        if s.startswith('#dbg_'): continue
        if cur is None:
            cur = Block(str(nparam), f); f.blocks[cur.name] = cur; f.order.append(cur)
        if 'call void @llvm.dbg.' in s:
            g = VALMETA.search(s)
            if g and g.group(1).startswith('%'):
                md = m.meta.get(g.group(2), ''); h = re.search(r'name: "([^"]*)"', md)
                if h:
                    f.vnames.setdefault(g.group(1)[1:], h.group(1))
            continue
        d = DBGRE.search(s); line = 0; dbg = None
        if d:
            dbg = d.group(1)
            if dbg not in linecache:
                h = re.search(r'line: (\d+)', m.meta.get(dbg, '')); linecache[dbg] = int(h.group(1)) if h else 0
            line = linecache[dbg]
        s2 = re.sub(r'(, ![a-zA-Z.]+ !\d+)+\s*$', '', s)
        s2 = re.sub(r'(, !srcloc !\d+|, !llvm.loop !\d+|, !dbg !\d+)', '', s2)
        ins = parse_inst(m, s2)
        ins.line = line or (cur.insts[-1].line if cur.insts else f.line); ins.blk = cur; ins.idx = len(cur.insts); ins.fn = f; ins.uid = uid; ins.dbg = dbg; uid += 1
        cur.insts.append(ins)
        if ins.op == 'phi': cur.phis.append(ins)
    for b in f.order:
        t = b.insts[-1]
        if t.op == 'br': b.succs = [t.aux[0]] if len(t.aux) == 1 else list(t.aux)
        elif t.op == 'switch': b.succs = [t.aux[0]] + [x[1] for x in t.aux[1]]
        b.succs = [f.blocks[x] for x in b.succs]
    # drop unreachable blocks
    seen = set(); st = [f.order[0]]
    while st:
        b = st.pop()
        if b.name in seen: continue
        seen.add(b.name); st += b.succs
    f.order = [b for b in f.order if b.name in seen]; f.blocks = {b.name: b for b in f.order}
    for b in f.order:
        for x in b.phis: x.a = [(v, l) for v, l in x.a if l in f.blocks]
        for x in b.succs:
            if b not in x.preds: x.preds.append(b)
    f.defs = {i.res: i for i in f.insts() if i.res is not None}
    f.pindex = {nm: k for k, (t, nm, bv) in enumerate(f.params)}

BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('zext sext trunc ptrtoint inttoptr bitcast sitofp uitofp fptosi fptoui fpext fptrunc addrspacecast'.split())

def parse_inst(m, s):
    toks = tokenize(s); p = P(toks, m); res = None
    if p.peek(1)[1] == '=' and p.peek()[0] == 'id':
        res = p.next()[1][1:]; p.i += 1
    while p.peek()[1] in ('tail', 'musttail', 'notail'): p.i += 1
    op = p.next()[1]
    if op in BIN:
        p.skip_attrs(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return Inst(op, res, t, (a, b))
    if op == 'icmp' or op == 'fcmp':
        p.skip_attrs(); pred = p.next()[1]; p.skip_attrs(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return Inst(op, res, IntTy(1), (a, b), (pred, t))
    if op in CAST:
        p.skip_attrs(); t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
        return Inst(op, res, t2, (a,), t)
    if op == 'freeze' or op == 'fneg':
        p.skip_attrs(); t = p.type(); a = p.value(t); return Inst(op, res, t, (a,))
    if op == 'alloca':
        p.skip_attrs(); t = p.type(); cnt = ('c', 1)
        if p.eat(','):
            if p.peek()[1] != 'align':
                ct = p.type(); cnt = p.value(ct)
        return Inst('alloca', res, PTR, (cnt,), t)
    if op == 'load':
        p.eat('atomic'); p.eat('volatile'); t = p.type(); p.expect(','); p.type(); a = p.value(PTR)
        return Inst('load', res, t, (a,))
    if op == 'store':
        p.eat('atomic'); p.eat('volatile'); t, v = p.tv(); p.expect(','); p.type(); a = p.value(PTR)
        return Inst('store', None, t, (v, a))
    if op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'): p.i += 1
        t = p.type(); p.expect(','); p.type(); b = p.value(PTR); idx = []
        while p.eat(','):
            it = p.type(); idx.append(p.value(it))
        return Inst('gep', res, PTR, (b,) + tuple(idx), t)
    if op == 'call':
        p.skip_attrs(); t = p.type(); 
        vararg = False
        if t.k == 'func': vararg = bool(t.n); rt = t.elem
        else: rt = t
        p.skip_attrs()
        callee = p.value(PTR)
        p.expect('('); args = []; tys = []
        while not p.eat(')'):
            at = p.type()
            p.skip_attrs()
            if at.k == 'metadata':
                # skip metadata operand
                while p.peek()[1] not in (',', ')'):
                    if p.next()[1] == '(': 
                        p.i -= 1; p.skip_paren()
                args.append(('undef',))
            else: args.append(p.value(at))
            tys.append(at); p.eat(',')
        rest = [v for k, v in toks[p.i:]]
        nr = any('noreturn' in m.attrgroups.get(v, '') for v in rest if v.startswith('#')) 
        return Inst('call', res, rt, tuple(args), dict(callee=callee, tys=tys, noreturn=nr, vararg=vararg))
    if op == 'br':
        if p.eat('label'): return Inst('br', None, VOID, (), (p.next()[1][1:],))
        t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = p.next()[1][1:]; p.expect(','); p.expect('label'); b = p.next()[1][1:]
        if a == b: return Inst('br', None, VOID, (), (a,))
        return Inst('br', None, VOID, (c,), (a, b))
    if op == 'switch':
        t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next()[1][1:]; p.expect('['); cs = []
        while not p.eat(']'):
            ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cs.append((cv[1], p.next()[1][1:]))
        return Inst('switch', None, t, (v,), (d, cs))
    if op == 'ret':
        t = p.type()
        if t.k == 'void': return Inst('ret', None, t, ())
        return Inst('ret', None, t, (p.value(t),))
    if op == 'phi':
        p.skip_attrs(); t = p.type(); ins = []
        while p.eat('['):
            v = p.value(t); p.expect(','); l = p.next()[1][1:]; p.expect(']'); ins.append((v, l)); p.eat(',')
        return Inst('phi', res, t, ins)
    if op == 'select':
        p.skip_attrs(); t, c = p.tv(); p.expect(','); t, a = p.tv(); p.expect(','); t2, b = p.tv()
        return Inst('select', res, t, (c, a, b))
    if op == 'unreachable': return Inst('unreachable')
    if op == 'extractvalue':
        t, a = p.tv(); idx = []
        while p.eat(','): idx.append(int(p.next()[1]))
        return Inst('extractvalue', res, None, (a,), idx)
    if op == 'insertvalue':
        t, a = p.tv(); p.expect(','); t2, b = p.tv(); idx = []
        while p.eat(','): idx.append(int(p.next()[1]))
        return Inst('insertvalue', res, t, (a, b), idx)
    if op in ('atomicrmw', 'cmpxchg', 'fence', 'va_arg', 'indirectbr', 'resume', 'invoke', 'extractelement', 'insertelement', 'shufflevector'):
        return Inst(op, res, IntTy(32), ())
    raise AnalysisError('IR parse: unknown instruction %r' % s)

# ---------------------------------------------------------------- program
class Program:
    """all modules of the library"""
    def __init__(s):
        s.modules = {}; s.functions = {}; s.allfns = []
    def finish(s):
        for m in s.modules.values():
            for f in m.functions.values():
                s.allfns.append(f)
                if not f.internal: s.functions[f.name] = f
        s.globals = {}
        for m in s.modules.values():
            for g in m.globals.values():
                if not g.decl and not g.internal: s.globals[g.name] = g
    def resolve(s, mod, name):
        """function named `name` seen from module mod -> Function or None (external)"""
        f = mod.functions.get(name)
        if f: return f
        return s.functions.get(name)
    def callee(s, ins):
        c = ins.aux['callee']
        if c[0] == 'g':
            f = s.resolve(ins.fn.mod, c[1])
            if f: return f
        return None
    def calleename(s, ins):
        c = ins.aux['callee']
        return c[1] if c[0] == 'g' else None
    def fn(s, name):
        """unique function by source name (public or static)"""
        if name in s.functions: return s.functions[name]
        c = [f for f in s.allfns if f.name == name]
        return c[0] if c else None

def sources():
    return sorted(f for f in glob.glob(REPO + '/srcs/toolbox/*.c'))

def force_inline(path):
    """let opt expand every static function whose address is not taken into its callers"""
    t = open(path).read()
    t = re.sub(r'^(attributes #\d+ = \{.*?)\bnoinline\b', r'\1', t, flags=re.M)
    def fix(m):
        return m.group(0) if 'alwaysinline' in m.group(0) else re.sub(r'\)( #\d+)', r') alwaysinline\1', m.group(0), 1)
    t = re.sub(r'^define internal .*$', fix, t, flags=re.M)
    open(path, 'w').write(t)

def mkinc(tmp):
    inc = tmp + '/include/u'; os.makedirs(inc, exist_ok=True)
    for d in ('missing', 'toolbox'):
        if not os.path.islink(inc + '/' + d): os.symlink(REPO + '/include/' + d, inc + '/' + d)
    shutil.copy(HERE + '/libu_conf.h', inc + '/libu_conf.h')

def consts(names, incs=(), pre=''):
    """values of compile-time constants as the compiler sees them: {name: int}"""
    tmp = tempfile.mkdtemp(prefix='sa-')
    try:
        mkinc(tmp)
        with open(tmp + '/k.c', 'w') as fh:
            fh.write(pre + '#include <u/libu.h>\n' + ''.join('#include <%s>\n' % i for i in incs))
            for k, n in enumerate(names): fh.write('long long k%d = (long long) (%s);\n' % (k, n))
        pr = subprocess.run([tool('clang'), '-w', '-O0', '-S', '-emit-llvm', '-D_GNU_SOURCE', '-DHAVE_CONF_H', '-I' + REPO + '/include', '-I' + tmp + '/include',
                             '-I' + REPO + '/srcs/toolbox', '-o', tmp + '/k.ll', tmp + '/k.c'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if pr.returncode: raise AnalysisError('constants: ' + pr.stdout.decode())
        m = parse_module(tmp + '/k.ll', 'k')
        return {n: m.globals['k%d' % k].init[1] if m.globals['k%d' % k].init[0] == 'c' else 0 for k, n in enumerate(names)}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def compile_all(defs=(), tmp=None, m2r=True, inline=False):
    own = tmp is None
    tmp = tmp or tempfile.mkdtemp(prefix='sa-')
    try:
        mkinc(tmp)
        prog = Program(); procs = []
        clang = tool('clang'); opt = tool('opt')
        for f in sources():
            b = os.path.basename(f)[:-2]
            if b == 'facility': continue
            out = '%s/%s.ll' % (tmp, b)
            cmd = [clang, '-w', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-S', '-emit-llvm', '-D_GNU_SOURCE', '-DHAVE_CONF_H',
                   '-I' + REPO + '/include', '-I' + tmp + '/include', '-o', out] + ['-D' + d for d in defs] + [f]
            procs.append((f, out, b, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        ps2 = []
        for f, out, b, pr in procs:
            o = pr.communicate()[0]
            if pr.returncode: raise AnalysisError('clang failed on %s:\n%s' % (f, o.decode()))
            if inline: force_inline(out)
            if m2r:
                out2 = out[:-3] + '.m.ll'
                ps2.append((f, out2, b, subprocess.Popen([opt, '-S', '-passes=' + ('always-inline,globaldce,mem2reg' if inline else 'mem2reg'), '-o', out2, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
            else: ps2.append((f, out, b, None))
        for f, out2, b, pr in ps2:
            if pr:
                o = pr.communicate()[0]
                if pr.returncode: raise AnalysisError('opt failed on %s:\n%s' % (f, o.decode()))
            prog.modules[b] = parse_module(out2, b)
        prog.finish()
        if len(prog.allfns) < 100: raise AnalysisError('only %d functions found' % len(prog.allfns))
        return prog
    finally:
        if own: shutil.rmtree(tmp, ignore_errors=True)

def srchash(extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sources() + sorted(glob.glob(REPO + '/include/**/*.h', recursive=True)) + sorted(glob.glob(HERE + '/*.py')) + [HERE + '/libu_conf.h']:
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()

if __name__ == '__main__':
    import time
    t = time.time(); p = compile_all()
    print(len(p.allfns), 'functions', sum(1 for f in p.allfns for i in f.insts()), 'insts', time.time() - t, 's')
