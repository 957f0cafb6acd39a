"""C21: dispatch over enumerated kinds."""
import re
from ir import compile_all, AnalysisError, consts
import poly
from poly import L, Poly, Cmp
from checks.framework import Result
from checks.util import members
from checks import astutil
from checks.numck import Bounds, getf, cell, setcell, numeric, structsize, enumerators

# kinds that are meaningfully told apart as a class: a switch over exactly one of these may ignore the rest
CLASSES = [{'U_JSON_TYPE_STRING', 'U_JSON_TYPE_NUMBER'}, {'U_JSON_TYPE_ARRAY', 'U_JSON_TYPE_OBJECT'}]

def reports(fn, arm):
    """the statements of a default arm end in a failure return or say something"""
    labels = {}
    def index(n):
        ks = astutil.kids(n)
        for k, x in enumerate(ks):
            if x.get('kind') == 'LabelStmt': labels[x.get('declId')] = [x] + ks[k + 1:]
            index(x)
    index(fn)
    def retval(n):
        e = astutil.kids(n)
        if not e: return True                     # nothing can be returned
        for x in astutil.walk(e[0]):
            if x.get('kind') in ('IntegerLiteral',) and x.get('value') != '0': return True
            if x.get('kind') == 'UnaryOperator' and x.get('opcode') == '~': return True
            if x.get('kind') == 'ImplicitCastExpr' and x.get('castKind') == 'NullToPointer': return True
            r = x.get('referencedDecl')
            if r and r.get('kind') == 'EnumConstantDecl' and not r.get('name', '').endswith('NONE'): return True
            if r and r.get('kind') == 'FunctionDecl' and re.search(r'log', r.get('name', '')): return True
        return False
    def says(ns, depth=0):
        for s in ns:
            for n in astutil.walk(s):
                k = n.get('kind')
                if k == 'ReturnStmt': 
                    if retval(n): return True
                if k == 'CallExpr' and any(re.match(r'u_log|u_con|syslog|fprintf|abort|exit', (x.get('referencedDecl') or {}).get('name', '')) for x in astutil.walk(n)): return True
                if k == 'GotoStmt' and depth < 3 and says(labels.get(n.get('targetLabelDeclId'), ()), depth + 1): return True
                if k == 'BreakStmt' and n is s: return False
        return False
    return says(arm)

class Emit(Bounds):
    """records what is written, called and allocated for one kind"""
    def __init__(s): Bounds.__init__(s); s.on = False; s.unroll = 0; s.opaque = {}; s.names = {}
    def jkey(s, A, st): return frozenset(m for m in st.mark if m[0] == 'emit')
    def access(s, A, fr, ins, st, b, off, size, kind): pass
    def emit(s, st, what):
        n = sum(1 for m in st.mark if m[0] == 'emit'); st.mark = st.mark | {('emit', n, what)}
    def call(s, A, fr, ins, st, name, args):
        if not s.on or name is None: return None
        if name in s.opaque:
            s.emit(st, (name,) + tuple(s.show(A, st, a) for a in args))
            r = s.opaque[name]
            if r is None: return [(st, A.retval(fr, ins))]
            return [(st, L(r))]
        if name in ('u_log_write_ex', 'u_log_write'): return [(st, A.retval(fr, ins))]
        return None
    def show(s, A, st, a):
        if not isinstance(a, L): return '?'
        if a.const(): return a.c
        t = text(A, a)
        if t is not None: return t
        b, off = whole(A, a)
        if b is not None and off.const(): return (s.names.get(b, A.aname(b)), off.c)
        return a.key()
def emits(st): return [m[2] for m in sorted(x for x in st.mark if x[0] == 'emit')]

def whole(A, a):
    """an address as an outermost object and an offset in it"""
    b, off = A.split(a)
    while b is not None and A.byid[b].name[0] == 'mem':
        n = A.byid[b].name; off = off + n[2]; b = A.atoms.get(n[1])
        b = getattr(b, 'id', b)
    return b, off

def text(A, v):
    """the characters of a constant string"""
    b, off = A.split(v) if isinstance(v, L) else (None, None)
    if b is None or not off.const(): return None
    n = A.byid[b].name
    if n[0] != 'g' or n[2] is None or not n[2].const or n[2].init is None or n[2].init[0] not in ('cstr', 'zero'): return None
    if n[2].init[0] == 'zero': return ''
    return n[2].init[1][off.c:].split(b'\0')[0].decode('latin1')

@numeric
def c21(pid, tier):
    r = Result('(1) syntax trees: in every switch whose labels are constants of an enumeration, every constant of that enumeration must have a label, or the default arm must report an error (a switch over exactly the value kinds or the container kinds of JSON may ignore the others). (2) abstract interpretation with the kind fixed to each declared value in turn, and to values that are not declared: what the dispatching operation stores, returns, calls, allocates and writes must be what that kind stands for, and undeclared kinds must be refused.')
    # ---- labels
    late = []
    for file, tree in astutil.trees(lambda t: re.search(r'\bswitch\b', t)):
        C, E = astutil.enums(tree)
        for fn in astutil.functions(tree):
            for n, arms in astutil.switches(fn):
                seen = {}; dflt = None
                for k, (labels, sts) in enumerate(arms):
                    for l in labels:
                        if l['kind'] == 'DefaultStmt':
                            dflt = list(sts); j = k + 1
                            # an arm without an end falls into the next one
                            while j < len(arms) and not any(x.get('kind') in ('BreakStmt', 'ReturnStmt', 'GotoStmt', 'ContinueStmt') for x in dflt): dflt += arms[j][1]; j += 1
                            continue
                        for x in astutil.walk(astutil.kids(l)[0]):
                            rd = x.get('referencedDecl')
                            if rd and rd.get('id') in C:
                                e, nm, v = C[rd['id']]; seen.setdefault(e, {})[v] = nm
                for e, vs in seen.items():
                    consts_ = E[e][1]
                    if not any(nm.startswith('U_') for nm, v in consts_): continue
                    r.count('switches'); r.cov['labels'] = r.cov.get('labels', 0) + len(vs)
                    miss = sorted(set(nm for nm, v in consts_ if v not in vs))
                    r.sample('%s: %s: %s: %d of %d values labelled' % (file, fn['name'], E[e][0] or consts_[0][0], len(vs), len(set(v for _, v in consts_))))
                    if not miss or len(vs) < 2 or any(set(vs.values()) == c for c in CLASSES): continue
                    if dflt is None: late.append((file, astutil.line(n), fn['name'], 'dispatch', '%s: no label and no default for %s' % (E[e][0] or 'enumeration', ', '.join(miss))))
                    elif not reports(fn, dflt): late.append((file, astutil.line(n), fn['name'], 'dispatch', '%s: %s fall into a default that reports no error' % (E[e][0] or 'enumeration', ', '.join(miss))))
    # ---- what each kind does
    p = compile_all(); h = Emit(); A = Poly(p, h); h.on = True
    def fn(name):
        f = p.functions.get(name)
        if f is None:
            c = [g for g in p.allfns if g.name == name and not g.decl]; f = c[0] if len(c) == 1 else None
        return f
    def obj(st, name, size):
        a = A.atom(('obj', name), 1 << 12, 1 << 62, ptr=True); st.ext[a] = L(size); h.names[a] = name; return a
    done = set()
    def run(f, st, args, opaque=()):
        done.add(f.name); h.opaque = dict(opaque)
        res = A.root(f, [st], args); r.count('kinds_interpreted')
        if not res: raise AnalysisError('%s never returns' % f.name)
        return res
    def bad(f, msg, x=None): r.add(f.file, f.line, f.name, 'kind', msg, poly.lines(x.trace) if x is not None else ())
    def can(x, rv, v, w=32):
        y = x.copy(); return bool(A.assume(y, Cmp('eq', rv, L(v), w), True))
    def cannot0(x, rv): return not can(x, rv, 0)
    def split0(res):
        """states that report success, states that report failure"""
        ok = []; ko = []
        for x, rv in res:
            if can(x, rv, 0): ok.append((x, rv))
            y = x.copy()
            if A.assume(y, Cmp('ne', rv, L(0), 32), True): ko.append((y, rv))
        return ok, ko
    def codes(mod, prefix):
        e = enumerators(p.modules[mod], prefix)
        if not e: raise AnalysisError('no constants %s*' % prefix)
        return e
    def real(e): return {k: v for k, v in e.items() if not re.search(r'_(LAST|MAX)$', k)}
    # JSON
    J = codes('json', 'U_JSON_TYPE_'); M = members(p.modules['json'], 'u_json_s'); JS = structsize(p.modules['json'], 'u_json_s')
    def json(st, kind, empty=True):
        o = obj(st, 'json', JS); setcell(A, st, o, M['type'], L(kind), 4); setcell(A, st, o, M['map'], L(0)); setcell(A, st, o, M['parent'], L(0))
        if 'children' in M: setcell(A, st, o, M['children'], L(0))
        if 'siblings' in M: setcell(A, st, o, M['siblings'], L(0))
        setcell(A, st, o, M['key'], L(0), 1); st.cont = st.cont | {(o, L(M['key']), L(0))}
        q = A.atom(('mem', A.byid[o].name, M['key']), 1, (1 << 63) - 1, ptr=True); setcell(A, st, q, 0, L(0), 1); st.cont = st.cont | {(q, L(0), L(0))}
        return o
    f = fn('u_json_set_type')
    if f:
        for v in sorted(J.values()) + [max(J.values()) + 1, -1]:
            st = poly.St(); o = json(st, J['U_JSON_TYPE_UNKNOWN'])
            for x, rv in run(f, st, [L(0, {o: 1}), L(v & 0xffffffff)]):
                c = cell(A, x, o, M['type'])
                if v in J.values():
                    if not A.eq0(x, rv): bad(f, 'type %d is refused' % v, x)
                    elif c is None or not A.eq0(x, c - v): bad(f, 'type %d is not what is set' % v, x)
                elif can(x, rv, 0): bad(f, 'the undeclared type %d is accepted' % v, x)
    WORDS = {'U_JSON_TYPE_TRUE': 'true', 'U_JSON_TYPE_FALSE': 'false', 'U_JSON_TYPE_NULL': 'null'}
    f = fn('u_json_get_val')
    if f:
        for k, v in sorted(J.items()):
            st = poly.St(); o = json(st, v)
            for x, rv in run(f, st, [L(0, {o: 1})]):
                if k in ('U_JSON_TYPE_STRING', 'U_JSON_TYPE_NUMBER'):
                    if whole(A, rv) != (o, L(M['val'])): bad(f, 'the value of a %s is not its text' % k, x)
                elif k in WORDS:
                    if text(A, rv) != WORDS[k]: bad(f, 'the value of a %s is not "%s"' % (k, WORDS[k]), x)
                elif not A.eq0(x, rv): bad(f, 'a %s has a value' % k, x)
    f = fn('u_json_get_bool')
    if f:
        for k, v in sorted(J.items()):
            st = poly.St(); o = json(st, v); c = obj(st, 'bool', 1); setcell(A, st, c, 0, L(7), 1)
            for x, rv in run(f, st, [L(0, {o: 1}), L(0, {c: 1})]):
                w = cell(A, x, c, 0)
                if k in ('U_JSON_TYPE_TRUE', 'U_JSON_TYPE_FALSE'):
                    if not A.eq0(x, rv): bad(f, 'a %s has no boolean value' % k, x)
                    elif w is None or not A.eq0(x, w - (1 if k.endswith('TRUE') else 0)): bad(f, 'a %s has the wrong boolean value' % k, x)
                elif can(x, rv, 0): bad(f, 'a %s has a boolean value' % k, x)
    for nm, f in (('long', fn('u_json_get_int')), ('real', fn('u_json_get_real'))):
        if not f: continue
        for k, v in sorted(J.items()):
            if k == 'U_JSON_TYPE_NUMBER': continue
            st = poly.St(); o = json(st, v); c = obj(st, nm, 8)
            for x, rv in run(f, st, [L(0, {o: 1}), L(0, {c: 1})]):
                if can(x, rv, 0): bad(f, 'a %s has a %s value' % (k, nm), x)
    f = fn('u_json_set_val_ex')
    if f:
        for k, v in sorted(J.items()):
            st = poly.St(); o = json(st, v); s = obj(st, 'text', 64)
            res = run(f, st, [L(0, {o: 1}), L(0, {s: 1}), L(0)], {'u_strlcpy': 0})
            for x, rv in res:
                copied = any(e[0] == 'u_strlcpy' and e[1] == ('json', M['val']) and e[2] == ('text', 0) for e in emits(x))
                if k in ('U_JSON_TYPE_STRING', 'U_JSON_TYPE_NUMBER'):
                    if can(x, rv, 0) and not copied: bad(f, 'setting the value of a %s succeeds without storing it' % k, x)
                elif any(e[0] == 'u_strlcpy' for e in emits(x)): bad(f, 'a %s is given a text' % k, x)
            if not any(can(x, rv, 0) for x, rv in res): bad(f, 'the value of a %s cannot be set' % k)
    f = fn('u_json_do_encode')
    if f:
        WANT = {'STRING': '"<val>"', 'NUMBER': '<val>', 'OBJECT': '{}', 'ARRAY': '[]', 'TRUE': 'true', 'FALSE': 'false', 'NULL': 'null'}
        for k, v in sorted(J.items()):
            st = poly.St(); o = json(st, v); s = obj(st, 'out', 64)
            h.unroll = 3; res = run(f, st, [L(0, {o: 1}), L(0, {s: 1})], {'u_string_aprintf': 0, 'u_string_append': 0, 'u_string_cat': 0})
            h.unroll = 0; got = set()
            for x, rv in res:
                if not can(x, rv, 0): continue
                t = ''
                for e in emits(x):
                    fm = e[2] if len(e) > 2 and isinstance(e[2], str) else '?'; a = list(e[3:])
                    if e[0] == 'u_string_aprintf': fm = re.sub(r'%s', lambda m: (lambda q: q if isinstance(q, str) else '<val>' if q == ('json', M['val']) else '<key>' if q == ('json', M['key']) else '<?>')(a.pop(0) if a else '?'), fm)
                    t += fm
                got.add(re.sub(r'\s', '', re.sub(r'"<key>":', '', t)))
            w = WANT.get(k[len('U_JSON_TYPE_'):])
            if w is None:
                if got: bad(f, 'a %s is encoded' % k)
            elif got != {w}: bad(f, 'a %s is encoded as %s rather than as %s' % (k, ' or '.join(sorted(got)) or 'nothing', w))
    f = fn('u_json_walk')
    if f:
        W = codes('json', 'U_JSON_WALK_')
        for v in sorted(W.values()) + [max(W.values()) + 1]:
            st = poly.St(); o = json(st, J['U_JSON_TYPE_OBJECT']); ch = obj(st, 'child', JS); setcell(A, st, o, M['children'], L(0, {ch: 1}))
            cb = A.A(('fn', 'sa_visit'), 4096, 1 << 47, ptr=True, fn='sa_visit')
            h.unroll = 2
            res = run(f, st, [L(0, {o: 1}), L(v), L(3), cb, L(0)], {'sa_visit': None, f.name: None}); h.unroll = 0
            for x, rv in res:
                seq = [(e[0], e[1], e[3 if e[0] == f.name else 2]) for e in emits(x)]
                visit = ('sa_visit', ('json', 0), 3); down = (f.name, ('child', 0), 4)
                if v not in W.values():
                    if seq: bad(f, 'an undeclared strategy walks the tree', x)
                elif sorted(map(str, seq)) != sorted(map(str, [visit, down])): bad(f, 'strategy %d does not visit the node and its children once each, one level deeper' % v, x)
                elif (seq[0] == visit) != (v == W['U_JSON_WALK_PREORDER']): bad(f, 'strategy %d visits the node %s its children' % (v, 'before' if seq[0] == visit else 'after'), x)
    # names of kinds
    for name, mod, prefix, same in (('u_json_type_str', 'json', 'U_JSON_TYPE_', True), ('__pcy2str', 'hmap', 'U_HMAP_PCY_', True), ('__datatype2str', 'hmap', 'U_HMAP_OPTS_DATATYPE_', True), ('u_hmap_strerror', 'hmap', 'U_HMAP_ERR_', False), ('u_test_status_str', 'test', 'U_TEST_', False)):
        f = fn(name)
        if not f or len(f.params) != 1: continue
        e = real(codes(mod, prefix)); seen = {}
        e = {k: v for k, v in e.items() if not re.search(r'_OP_|_REP_|_CASE_|_SUITE_', k)} if prefix != 'U_TEST_' else {k: v for k, v in e.items() if k in ('U_TEST_SUCCESS', 'U_TEST_FAILURE', 'U_TEST_ABORTED', 'U_TEST_SKIPPED')}
        other = set(text(A, rv) for x, rv in run(f, poly.St(), [L(max(list(e.values()) + [0]) + 77)])) - {None}
        for k, v in sorted(e.items()):
            for x, rv in run(f, poly.St(), [L(v)]):
                t = text(A, rv)
                if t is None: bad(f, '%s has no name' % k, x); continue
                if same and t != k[len(prefix):].lower(): bad(f, '%s is called "%s"' % (k, t), x)
                if t in other and not k.endswith('UNKNOWN'): bad(f, '%s has the name of undeclared values' % k, x)
                if seen.setdefault(t, k) != k: bad(f, '%s and %s have the same name' % (seen[t], k), x)
    f = next((g for g in p.modules['log'].functions.values() if g.name == 'u_log_label' and not g.decl), None)
    if f:
        seen = {}
        for v in range(8):
            for x, rv in run(f, poly.St(), [L(v)], {'syslog': None, 'getpid': None}):
                t = text(A, rv)
                if t is None or seen.setdefault(t, v) != v: bad(f, 'level %d has no label of its own' % v, x)
                elif any(e[0] == 'syslog' for e in emits(x)): bad(f, 'level %d is taken for unknown' % v, x)
    # search trees
    f = fn('u_bst_assign')
    if f:
        T = codes('bst', 'U_BST_TYPE_')
        for k, v in sorted(T.items()):
            st = poly.St(); d = obj(st, 'slot', 8); setcell(A, st, d, 0, L(0)); s = obj(st, 'source', 24); st.cont = st.cont | {(s, L(23), L(0))}
            res = run(f, st, [L(0, {d: 1}), L(0, {s: 1}), L(v), L(24)]); ok, ko = split0(res)
            if not ok: bad(f, 'nothing of type %s can be stored' % k)
            if k == 'U_BST_TYPE_PTR' and ko: bad(f, 'storing a pointer can fail', ko[0][0])
            for x, rv in ok: owned(A, x, cell(A, x, d, 0), s, k.endswith('PTR'), 24 if k.endswith('OPAQUE') else None, lambda m: bad(f, 'type %s: %s' % (k, m), x))
    f = fn('u_bst_rotate')
    if f:
        T = codes('bst', 'U_BST_ROT_'); B = members(p.modules['bst'], 'u_bst_node_s'); BS = structsize(p.modules['bst'], 'u_bst_node_s')
        for k, v in sorted(T.items()):
            st = poly.St(); n = {}
            for q in ('pivot', 'left', 'right', 'll', 'lr', 'rl', 'rr'): n[q] = obj(st, q, BS)
            for q, a, b in (('pivot', 'left', 'right'), ('left', 'll', 'lr'), ('right', 'rl', 'rr')):
                setcell(A, st, n[q], B['left'], L(0, {n[a]: 1})); setcell(A, st, n[q], B['right'], L(0, {n[b]: 1}))
            up, dn, far, mid = ('right', 'right', 'rr', 'rl') if k.endswith('LEFT') else ('left', 'left', 'll', 'lr')
            op = 'left' if k.endswith('LEFT') else 'right'
            for x, rv in run(f, st, [L(0, {n['pivot']: 1}), L(v)]):
                want = [(rv, up, 'the child promoted'), (cell(A, x, n[up], B[op]), 'pivot', 'the child below the promoted one'), (cell(A, x, n['pivot'], B[dn]), mid, 'the subtree handed over'), (cell(A, x, n[up], B[dn]), far, 'the outer subtree'), (cell(A, x, n['pivot'], B[op]), op, 'the other subtree')]
                for got, w, what in want:
                    if got is None or not A.eq0(x, got - L(0, {n[w]: 1})): bad(f, '%s: %s is wrong' % (k, what), x); break
    # hash maps
    hm = p.modules['hmap']; HO = members(hm, 'u_hmap_opts_s'); HM = members(hm, 'u_hmap_s'); PC = members(hm, 'u_hmap_pcy_s'); OB = members(hm, 'u_hmap_o_s')
    def hmap(st):
        o = obj(st, 'opts', structsize(hm, 'u_hmap_opts_s')); m = obj(st, 'hmap', structsize(hm, 'u_hmap_s')); setcell(A, st, m, HM['opts'], L(0, {o: 1})); return m, o
    P = real(codes('hmap', 'U_HMAP_PCY_')); P = {k: v for k, v in P.items() if '_OP_' not in k}
    K = consts(['U_HMAP_OPTS_OWNSDATA', 'U_HMAP_TYPE_LAST', 'U_HMAP_OPTS_DATATYPE_LAST', 'U_HMAP_PCY_LAST'])
    f = fn('__pcy_setup')
    if f:
        ops = codes('hmap', 'U_HMAP_PCY_OP_'); tab = {}
        for v in sorted(P.values()) + [max(P.values()) + 1]:
            st = poly.St(); m, o = hmap(st); setcell(A, st, o, HO['policy'], L(v), 4)
            for q in ('pop', 'push'): setcell(A, st, m, HM['pcy'] + PC[q], A.A(('stale', q), 4096, 1 << 47))
            setcell(A, st, m, HM['pcy'] + PC['ops'], L(99), 4)
            for x, rv in run(f, st, [L(0, {m: 1})]):
                k = next((z for z in P if P[z] == v), None)
                if k is None:
                    if can(x, rv, 0): bad(f, 'the undeclared policy %d is accepted' % v, x)
                    continue
                if not A.eq0(x, rv): bad(f, 'policy %s is refused' % k, x); continue
                row = {}
                for q in ('pop', 'push', 'ops'):
                    c = cell(A, x, m, HM['pcy'] + PC[q])
                    if c is not None and c.const(): row[q] = c.c
                    else:
                        b = c.one() if c is not None else None; g = A.byid[b].fn if b is not None else None
                        row[q] = g if isinstance(g, str) else g.name if g is not None else '?'
                tab[k] = row
                if '?' in row.values(): bad(f, 'policy %s leaves an operation as it was' % k, x)
        N = tab.get('U_HMAP_PCY_NONE')
        if N and N != {'pop': 0, 'push': 0, 'ops': 0}: bad(f, 'without a policy some queue operation is still set')
        D = {k: t for k, t in tab.items() if k != 'U_HMAP_PCY_NONE'}
        for k, t in sorted(D.items()):
            if t['pop'] == 0 or t['push'] == 0: bad(f, 'policy %s has no %s operation' % (k, 'pop' if t['pop'] == 0 else 'push'))
            want = ops['U_HMAP_PCY_OP_PUT'] | (ops['U_HMAP_PCY_OP_GET'] if k in ('U_HMAP_PCY_LRU', 'U_HMAP_PCY_LFU') else 0)
            if t['ops'] != want: bad(f, 'policy %s follows the operations %s rather than %s' % (k, t['ops'], want))
        q = [D.get('U_HMAP_PCY_' + z) for z in ('FIFO', 'LRU', 'LFU', 'CUSTOM')]
        if all(q):
            fi, lr, lf, cu = q
            if fi['push'] != lr['push'] or len({fi['push'], lf['push'], cu['push']}) != 3: bad(f, 'the push operations of the policies do not match what they keep in order (time, count, priority)')
            if not (fi['pop'] == lr['pop'] == cu['pop']) or lf['pop'] == fi['pop']: bad(f, 'the pop operations of the policies do not take the end that each policy discards')
            for k, t, ins_, rem in (('FIFO', fi, 'head', 'last'), ('LFU', lf, None, 'first')):
                e = qend(p, t['pop'])
                if e is not None and e != rem: bad(f, 'policy %s discards the %s entry of its queue' % (k, e))
    TY = real(codes('hmap', 'U_HMAP_TYPE_')); DT = real(codes('hmap', 'U_HMAP_OPTS_DATATYPE_'))
    for name, vals, field in (('u_hmap_opts_set_type', TY, 'type'), ('u_hmap_opts_set_key_type', DT, 'key_type'), ('u_hmap_opts_set_val_type', DT, 'val_type'), ('u_hmap_opts_set_policy', P, 'policy')):
        f = fn(name)
        if not f: continue
        for v in sorted(vals.values()) + [max(vals.values()) + 1, 0xffffffff]:
            st = poly.St(); m, o = hmap(st); setcell(A, st, o, HO[field], L(55), 4); setcell(A, st, o, HO['easy'], L(0), 1)
            for x, rv in run(f, st, [L(0, {o: 1}), L(v)]):
                c = cell(A, x, o, HO[field])
                if v in vals.values():
                    if not A.eq0(x, rv) or c is None or not A.eq0(x, c - v): bad(f, 'the declared value %d is refused or not stored' % v, x)
                elif can(x, rv, 0): bad(f, 'the undeclared value %d is accepted' % v, x)
    f = fn('u_hmap_o_new')
    if f:
        for which, other in (('key', 'val'), ('val', 'key')):
            for k, v in sorted(DT.items()):
                for own in (True, False):
                    st = poly.St(); m, o = hmap(st); setcell(A, st, o, HO['options'], L(K['U_HMAP_OPTS_OWNSDATA'] if own else 0), 4)
                    setcell(A, st, o, HO[which + '_type'], L(v), 4); setcell(A, st, o, HO[other + '_type'], L(DT['U_HMAP_OPTS_DATATYPE_POINTER']), 4)
                    setcell(A, st, o, HO[which + '_sz'], L(24)); setcell(A, st, o, HO[other + '_sz'], L(40))
                    a = {w: obj(st, 'user ' + w, 40) for w in ('key', 'val')}
                    for w in a: st.cont = st.cont | {(a[w], L(23), L(0)), (a[w], L(39), L(0))}
                    got = 0
                    for x, rv in run(f, st, [L(0, {m: 1}), L(0, {a['key']: 1}), L(0, {a['val']: 1})]):
                        b, off = A.split(rv)
                        if A.eq0(x, rv): continue
                        if b is None or off != L(0): bad(f, 'unknown result', x); continue
                        got += 1
                        for w, kk in ((which, k), (other, 'POINTER')):
                            owned(A, x, cell(A, x, b, OB[w]), a[w], not own or kk.endswith('POINTER'), 24 if kk.endswith('OPAQUE') else None, lambda msg: bad(f, '%s of type %s%s: %s' % (w, kk, '' if own else ' (not owned)', msg), x))
                    if not got: bad(f, 'no element with a %s of type %s can be made' % (which, k))
    # arrays
    f = fn('u_array_create')
    if f:
        T = real(codes('array', 'U_ARRAY_TYPE_')); AM = members(p.modules['array'], 'u_array_s')
        CT = {'BOOL': '_Bool', 'CHAR': 'char', 'U_CHAR': 'char', 'SHORT': 'short', 'U_SHORT': 'short', 'INT': 'int', 'U_INT': 'int', 'LONG': 'long', 'U_LONG': 'long', 'LONG_LONG': 'long long', 'U_LONG_LONG': 'long long', 'INTMAX': 'intmax_t', 'U_INTMAX': 'uintmax_t', 'FLOAT': 'float', 'DOUBLE': 'double', 'LONG_DOUBLE': 'long double', 'FLOAT_COMPLEX': 'float _Complex', 'DOUBLE_COMPLEX': 'double _Complex', 'LONG_DOUBLE_COMPLEX': 'long double _Complex', 'PTR': 'void *'}
        SZ = consts(['sizeof(%s)' % t for t in sorted(set(CT.values()))])
        for k, v in sorted(T.items(), key=lambda x: x[1]) + [('undeclared', max(T.values()) + 1)]:
            nm = k[len('U_ARRAY_TYPE_'):]; st = poly.St(); o = obj(st, 'result', 8); setcell(A, st, o, 0, L(0))
            ok, ko = split0(run(f, st, [L(v), L(10), L(0, {o: 1})]))
            if k == 'undeclared' or nm == 'UNSET':
                if ok: bad(f, 'an array of the type %s can be made' % k.lower(), ok[0][0])
                continue
            if not ok: bad(f, 'no array of type %s can be made' % k)
            for x, rv in ok:
                c = cell(A, x, o, 0); b = A.split(c)[0] if c is not None else None
                base = cell(A, x, b, AM['base']) if b is not None else None; bb = A.split(base)[0] if base is not None else None
                if nm in CT and (bb is None or x.ext.get(bb) is None or not A.eq0(x, x.ext[bb] - 10 * SZ['sizeof(%s)' % CT[nm]])): bad(f, 'ten elements of type %s get storage of %s byte(s)' % (k, A.show(x.ext[bb]) if bb is not None and x.ext.get(bb) is not None else '?'), x)
    # sockets
    f = fn('u_net_sd_by_addr_ex')
    if f:
        T = codes('net', 'U_NET_'); T = {k: v for k, v in T.items() if k in ('U_NET_SSOCK', 'U_NET_CSOCK')}; NA = members(p.modules['net'], 'u_net_addr_s')
        used = {}
        for k, v in sorted(T.items()) + [('undeclared', max(T.values()) + 1)]:
            st = poly.St(); a = obj(st, 'address', structsize(p.modules['net'], 'u_net_addr_s')); setcell(A, st, a, NA['mode'], L(v), 4)
            # what the entry point hands to its workers
            ops = {g.name: None for g in p.modules['net'].functions.values() if g.internal and not g.decl}
            for x, rv in run(f, st, [L(0, {a: 1}), L(0)], ops):
                es = emits(x)
                if k == 'undeclared':
                    if es or not A.ge0(x, -rv + -1): bad(f, 'an undeclared mode is used', x)
                    continue
                fns = set()
                for e in es:
                    for z in e:
                        for g in p.modules['net'].functions.values():
                            if not g.decl and (z == g.name or isinstance(z, tuple) and g.name in str(z)): fns |= reach(p, g)
                used[k] = fns
        if 'U_NET_SSOCK' in used and 'U_NET_CSOCK' in used:
            if 'listen' not in used['U_NET_SSOCK']: bad(f, 'a passive socket is not made to listen')
            if 'connect' not in used['U_NET_CSOCK']: bad(f, 'an active socket is not connected')
    # where every kind has been interpreted it does not matter under which label it is handled
    for x in late:
        if x[2] not in done: r.add(*x)
    r.need('switches', 8); r.need('kinds_interpreted', 60)
    return r

def reach(p, g):
    out = set(); work = [g]; seen = set()
    while work:
        f = work.pop()
        if f in seen: continue
        seen.add(f)
        for i in f.calls():
            nm = p.calleename(i); t = p.callee(i)
            if nm: out.add(nm)
            if t is not None and not t.decl and t.mod is g.mod: work.append(t)
    return out

def qend(p, name):
    """which end of the queue a pop operation takes its element from, if that can be told"""
    return None

def owned(A, x, got, src, same, size, bad):
    """a stored pointer is the source itself, or a heap copy of it"""
    if got is None: return bad('nothing known is stored')
    if same:
        if not A.eq0(x, got - L(0, {src: 1})): bad('the pointer given is not what is stored')
        return
    b, off = A.split(got)
    if b is None or A.eq0(x, got): return bad('nothing is stored')
    if b == src: return bad('the pointer given is stored instead of a copy')
    if off != L(0) or A.byid[b].name[0] != 'h': return bad('what is stored is no new block')
    if size is not None and (x.ext.get(b) is None or not A.eq0(x, x.ext[b] - size)): return bad('the copy has not the size given')
