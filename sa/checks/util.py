"""Helpers shared by the checks."""
import re
from engine import INF, root

def cstr(f, v):
    """bytes of the string literal / constant array a value points to (offset 0), without the terminator"""
    if v is None or v[0] != 'g': return None
    n = v[1].split(':')[-1]
    g = f.mod.globals.get(n)
    if g is None or not g.const or not g.init: return None
    x = g.init
    if isinstance(x, tuple) and x[0] == 'cstr':
        b = x[1]
        return b.split(b'\0')[0]
    if isinstance(x, tuple) and x[0] == 'zero': return b''
    return None

CONV = re.compile(rb'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L|q)?([diouxXcspfeEgGaAnm%])')

def digits(lo, hi, base):
    import math
    m = max(abs(lo), abs(hi)); n = 1
    while m >= base: m //= base; n += 1
    return n + (1 if lo < 0 else 0)

def fmtmax(e, f, st, fmt, args):
    """largest number of bytes the format can produce (without terminator), or None when unbounded"""
    b = cstr(f, fmt)
    if b is None: return None
    n = 0; pos = 0; k = 0
    for m in CONV.finditer(b):
        n += m.start() - pos; pos = m.end()
        fl, w, pr, ln, c = m.groups()
        if c == b'%': n += 1; continue
        if w == b'*' or pr == b'*': return None
        w = int(w or 0)
        a = args[k] if k < len(args) else None
        k += 1
        if c == b'c': l = 1
        elif c in b'diouxX':
            bits = 64 if ln in (b'l', b'll', b'z', b'j', b't', b'q') else 32
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if c in b'di' else (0, (1 << bits) - 1)
            if a is not None and a[0] != 'undef':
                x = e.fact(st, a)
                # a known value inside the type's own range narrows it
                if x[0] >= lo and x[1] <= hi: lo, hi = x[0], x[1]
            l = digits(lo, hi, 10 if c in b'diu' else 8 if c == b'o' else 16) + (2 if b'#' in fl else 0) + (1 if b'+' in fl or b' ' in fl else 0)
            if pr: l = max(l, int(pr) + 1)
        elif c == b's':
            if a is None: return None
            s = cstr(f, a)
            if s is not None: l = len(s)
            elif pr: l = int(pr)
            else: return None
            if pr: l = min(l, int(pr))
        else: return None
        n += max(l, w)
    return n + len(b) - pos

def members(mod, name):
    """byte offsets of the members of `struct name`, from the debug information: {member: offset}"""
    for md in mod.meta.values():
        if md.startswith('!DICompositeType') and 'name: "%s"' % name in md:
            x = re.search(r'elements: !(\d+)', md)
            if not x: continue
            out = {}
            for n in re.findall(r'!(\d+)', mod.meta[x.group(1)]):
                d = mod.meta.get(n, '')
                h = re.search(r'name: "([^"]*)"', d); o = re.search(r'offset: (\d+)', d)
                if h: out[h.group(1)] = int(o.group(1)) // 8 if o else 0
            return out
    return {}

def ptype(f, k):
    """declared type of parameter k as a chain: ['ptr', 'ptr', 'struct x'] ('?' when unknown)"""
    mod = f.mod; md = mod.meta.get(f.sp, '') if getattr(f, 'sp', None) else ''
    x = re.search(r'type: !(\d+)', md); x = re.search(r'types: !(\d+)', mod.meta.get(x.group(1), '')) if x else None
    if not x: return ['?']
    ts = re.findall(r'!(\d+)|null', mod.meta[x.group(1)][1:])
    if k + 1 >= len(ts): return ['?']
    n = ts[k + 1]; out = []
    for _ in range(12):
        d = mod.meta.get(n, '')
        b = re.search(r'baseType: !(\d+)', d)
        if 'DW_TAG_pointer_type' in d:
            out.append('ptr')
            if not b: return out + ['void']
        elif not (('DW_TAG_typedef' in d or 'DW_TAG_const_type' in d or 'DW_TAG_volatile' in d) and b):
            h = re.search(r'name: "([^"]*)"', d); return out + [h.group(1) if h else '?']
        n = b.group(1)
    return out + ['?']
