"""C16: base64."""
from ir import compile_all, AnalysisError
import poly, bits
from poly import L, Poly
from checks.framework import Result
from checks.numck import Bounds, collect, cover, getf, cell, setcell, numeric

FILE = 'srcs/toolbox/b64.c'
MARGIN = 8

def lay(B, st, obj, vals):
    for k, v in enumerate(vals): B.store(st, ('p', obj, k), v, 1)

def zero(rv): return rv is not None and rv[0] == 'k' and rv[1] & 0xffffffff == 0
def nonzero(rv): return rv is not None and rv[0] == 'k' and rv[1] & 0xffffffff != 0

@numeric
def c16(pid, tier):
    r = Result('Two abstract interpretations of the codec. (1) bit provenance: groups of symbolic bytes are followed, bit by bit, through the encoder (giving for every output character the table and the input bits that index it) and every one of the 64 entries of that table is followed through the decoder, tabulated over the alphabet; each output bit of the decoder must be the input bit it came from, and for every one of the 256 byte values at every position of a group the set of values on which the decoder goes on must be the alphabet (and padding). (2) linear inequalities: for any lengths, every access to the tables, to the local groups and to the buffers of the caller is inside them, and the size reported is the number of bytes written.')
    p = compile_all(); fe = getf(p, 'u_b64_encode'); fd = getf(p, 'u_b64_decode')
    def bad(f, cat, msg, path=()): r.add(FILE, f.line, f.name, cat, msg, list(path))
    B = bits.Bits(p); I = ('buf', 'input'); O = ('buf', 'output'); Z = ('buf', 'size')
    top = 7 if tier == 'quick' else 13
    alpha = None; code = {}
    def only(f, st, args, what):
        try: res = B.run(f, args, st)
        except bits.Out as e: bad(f, 'table', '%s: %s' % (what, e)); return None
        return res
    for n in range(1, top):
        what = 'encoding %d byte(s)' % n
        st = bits.S(); lay(B, st, I, [('bits', tuple((('in', k), b) for b in range(8))) for k in range(n)])
        want = (n + 2) // 3 * 4
        res = only(fe, st, [('p', I, 0), ('k', n), ('p', O, 0), ('k', want + 1)], what)
        if res is None: continue
        r.cov['groups_encoded'] = r.cov.get('groups_encoded', 0) + (n + 2) // 3
        if len(res) != 1 or not zero(res[0][1]): bad(fe, 'encode', '%s into enough space is not shown to succeed' % what); continue
        x = res[0][0]; out = {}
        for (o, k), (v, sz) in x.mem.items():
            if o == O: out[k] = v if sz == 1 else None
        if any(k < 0 or k > want for k in out): bad(fe, 'encode', '%s writes at offset %d of an output of %d' % (what, [k for k in out if k < 0 or k > want][0], want + 1)); continue
        if out.get(want) != ('k', 0): bad(fe, 'encode', '%s does not terminate the text at %d' % (what, want)); continue
        chars = []
        for k in range(want):
            v = out.get(k); r.count('characters_encoded')
            pad = k % 4 > (n - k // 4 * 3) if k // 4 == want // 4 - 1 else False
            if v is None: bad(fe, 'encode', '%s: character %d is never written' % (what, k)); break
            if pad:
                if v != ('k', 61): bad(fe, 'encode', '%s: character %d is not padding' % (what, k)); break
                chars.append(v); continue
            if v[0] == 'k' : bad(fe, 'encode', '%s: character %d does not depend on the input' % (what, k)); break
            if v[0] != 'lk': raise AnalysisError('%s: character %d is no entry of a constant table' % (what, k))
            t = B.table(v[1]); b = list(v[2]) + [0] * (6 - len(v[2]))
            if len(b) > 6: bad(fe, 'encode', '%s: character %d is chosen by more than six bits' % (what, k)); break
            if alpha is None:
                alpha = t[:64]
                if len(alpha) < 64: bad(fe, 'table', 'the table %s has %d characters' % (v[1].name, len(alpha))); return r
                dup = [c for c in alpha if alpha.count(c) > 1]
                if dup: bad(fe, 'table', 'the table %s gives %r for two values' % (v[1].name, chr(dup[0])))
                if 61 in alpha or any(not 33 <= c < 127 for c in alpha): bad(fe, 'table', 'the table %s holds a character that cannot stand for a value' % v[1].name)
            if t[:64] != alpha: bad(fe, 'table', 'two different tables are used to encode'); break
            chars.append(('six', tuple(b)))
        else: code[n] = chars
    if alpha is None:
        if r.viol: return r
        raise AnalysisError('no table lookup found in the encoder')
    # every value of a character, through the decoder, composed with the encoder
    for n, chars in sorted(code.items()):
        what = 'decoding the code of %d byte(s)' % n
        st = bits.S(); vals = []
        for k, c in enumerate(chars):
            if c[0] == 'k': vals.append(c)
            else:
                # where the encoder leaves low bits of a final group zero only those values occur, but all are decoded
                a = ('six', k); st.dom[a] = frozenset(range(64)); vals.append(B.fin(st, a, lambda x: alpha[x]))
        lay(B, st, I, vals); B.store(st, ('p', Z, 0), ('k', n + 0), 8)
        res = only(fd, st, [('p', I, 0), ('k', len(vals)), ('p', O, 0), ('p', Z, 0)], what)
        if res is None: continue
        for x, rv in res:
            if not zero(rv):
                d = [(a, xs) for a, xs in x.dom.items() if len(xs) < 64]
                bad(fd, 'decode', '%s fails%s' % (what, ' when character %d is %r' % (d[0][0][1], chr(alpha[min(d[0][1])])) if d else '')); continue
            r.cov['groups_decoded'] = r.cov.get('groups_decoded', 0) + (n + 2) // 3
            sz = x.mem.get((Z, 0))
            if sz is None or sz[0] != ('k', n): bad(fd, 'decode', '%s reports a size other than %d' % (what, n)); continue
            out = {k: v for (o, k), (v, s_) in x.mem.items() if o == O}
            if any(k < 0 or k >= n for k in out): bad(fd, 'decode', '%s writes at offset %d' % (what, max(out))); continue
            for k in range(n):
                v = out.get(k)
                if v is None: bad(fd, 'decode', '%s does not write byte %d' % (what, k)); break
                bs = B.bits(v, 8)
                for b in range(8):
                    r.count('bits_restored')
                    src = bs[b]
                    if isinstance(src, tuple): src = chars[src[0][1]][1][src[1]]
                    if src != (('in', k), b):
                        bad(fd, 'decode', '%s: bit %d of byte %d is %s' % (what, b, k, 'bit %d of byte %d of what was encoded' % (src[1], src[0][1]) if isinstance(src, tuple) else 'not a bit of what was encoded' if src == 'T' else 'always %d' % src)); break
                else: continue
                break
    # which bytes are taken for characters
    for pos in range(4):
        st = bits.S(); a = ('byte', pos); st.dom[a] = frozenset(range(256))
        vals = [('k', alpha[0])] * 4; vals[pos] = B.fin(st, a, lambda x: x)
        lay(B, st, I, vals); B.store(st, ('p', Z, 0), ('k', 3), 8)
        try: res = B.run(fd, [('p', I, 0), ('k', 4), ('p', O, 0), ('p', Z, 0)], st)
        except bits.Out as e: bad(fd, 'table', 'a byte at position %d of a group: %s' % (pos, e)); continue
        except AnalysisError:
            # the amount copied depends on whether the byte is padding: decide padding apart
            res = []
            for part in (frozenset([61]), frozenset(range(256)) - {61}):
                q = st.copy(); q.dom[a] = part; lay(B, q, I, [B.refit(q, v) for v in vals]); res += B.run(fd, [('p', I, 0), ('k', 4), ('p', O, 0), ('p', Z, 0)], q)
        seen = set()
        for x, rv in res:
            xs = x.dom[a]; seen |= xs; r.cov['byte_values_classified'] = r.cov.get('byte_values_classified', 0) + len(xs)
            if zero(rv):
                w = sorted(c for c in xs if c not in alpha and c != 61)
                if w: bad(fd, 'refuse', 'the byte 0x%02x at position %d of a group is not refused' % (w[0], pos))
            elif nonzero(rv):
                w = sorted(c for c in xs if c in alpha)
                if w: bad(fd, 'refuse', 'the character %r at position %d of a group is refused' % (chr(w[0]), pos))
            else: raise AnalysisError('the result of the decoder is not constant')
        if len(seen) != 256: raise AnalysisError('not every byte value is decided')
    for m in B.problems: bad(fd, 'uninitialised', m)
    # bounds for any length
    h = Bounds(); A = Poly(p, h)
    for f in (fe, fd):
        name = f.name; st = poly.St()
        n = A.A((name, 'in_sz'), 0, 1 << 61); m = A.A((name, 'out_sz'), 0, 1 << 61); A.fixed |= set(n.t) | set(m.t)
        bi = A.atom(('obj', name, 'input'), 1 << 12, 1 << 62, ptr=True); bo = A.atom(('obj', name, 'output'), 1 << 12, 1 << 62, ptr=True)
        st.ext[bi] = n; st.ext[bo] = m; h.limit = {(bi, 'w'): L(0)}
        if f is fe: sz = m
        else: c = A.atom(('obj', name, 'size cell'), 1 << 12, 1 << 62, ptr=True); st.ext[c] = L(8); setcell(A, st, c, 0, m); sz = L(0, {c: 1})
        res = A.root(f, [st], [L(0, {bi: 1}), n, L(0, {bo: 1}), sz])
        if not res: raise AnalysisError('%s never returns' % name)
        for x, rv in res:
            if f is fd:
                w = cell(A, x, c, 0); tr = poly.lines(x.trace)
                if w is None or not A.ge0(x, m - w) or not A.ge0(x, w): bad(f, 'size', 'the size reported (%s) is not shown to be at most the space given' % (A.show(w) if w is not None else 'unknown'), tr)
    r.count('lookups_followed', B.lookups); collect(r, A, ('bounds',)); cover(r, A, h)
    r.need('access_sites', 8); r.need('bits_restored', 100); r.need('byte_values_classified', 256 * 4); r.need('characters_encoded', 20)
    return r
