"""Format strings and variable argument lists (C26)."""
import os
from ir import compile_all, AnalysisError
import engine, models
from engine import root, lines
from checks.framework import Result
from checks.effects import Flow, base
from checks.util import cstr, CONV

# format position, first argument position (None: va_list position given)
EXT = {'printf': (0, 1), 'fprintf': (1, 2), 'dprintf': (1, 2), 'sprintf': (1, 2), 'snprintf': (2, 3), 'syslog': (1, 2), 'asprintf': (1, 2), 'warn': (0, 1), 'warnx': (0, 1), 'err': (1, 2), 'errx': (1, 2)}
EXTV = {'vprintf': (0, 1), 'vfprintf': (1, 2), 'vdprintf': (1, 2), 'vsprintf': (1, 2), 'vsnprintf': (2, 3), 'vsyslog': (1, 2), 'vasprintf': (1, 2), 'vwarn': (0, 1)}
EXTS = {'strftime': 2, 'sscanf': 1, 'fscanf': 1, 'scanf': 0}

def want(b):
    """argument kinds a format asks for"""
    out = []
    for m in CONV.finditer(b):
        fl, w, pr, ln, c = m.groups()
        if c == b'%': continue
        if w == b'*': out.append('i32')
        if pr == b'*': out.append('i32')
        if c in b'diouxXc': out.append('i64' if ln in (b'l', b'll', b'z', b'j', b't', b'q') else 'i32')
        elif c in b'sp' or c == b'n': out.append('ptr')
        elif c == b'm': pass
        else: out.append('x86_fp80' if ln == b'L' else 'double')
    return out

def stray(b):
    """conversions the parser does not know"""
    x = CONV.sub(b'', b)
    return b'%' in x

class VaHook:
    def __init__(s, vafun): s.vafun = vafun; s.bad = {}; s.n = {}
    def reset(s): s.bad = {}; s.n = {}
    def again(s, f): s.bad = {k: v for k, v in s.bad.items() if k[0] != f.key}
    def export(s): return (s.bad, s.n)
    def merge(s, x):
        s.bad.update(x[0])
        for k, v in x[1].items(): s.n.setdefault(k, set()).update(v)
    def rep(s, f, line, msg, st): s.bad.setdefault((f.key, line, msg), (f, lines(st.trace), ('lossy',) in st.mark))
    def get(s, st, r):
        for m in st.mark:
            if m[0] == 'va' and m[1] == r: return m[2]
        return 'live' if r[0] == 'a' else None
    def set(s, st, r, x): st.mark = frozenset(m for m in st.mark if not (m[0] == 'va' and m[1] == r)) | ({('va', r, x)} if x else frozenset())
    def on_va(s, e, f, ins, st, kind, r):
        x = s.get(st, r); s.n.setdefault(kind, set()).add((f.key, ins.uid))
        if kind in ('start', 'copy'):
            if r[0] == 'al' and x in ('live', 'used'): s.rep(f, ins.line, 'an argument list is started again before it was ended', st)
            if kind == 'copy':
                q = root(e.val(st, ins.a[1]))
                y = s.get(st, q)
                if y == 'used': s.rep(f, ins.line, 'an argument list that was already consumed is copied', st)
                if y is None and q[0] == 'al': s.rep(f, ins.line, 'an argument list is copied before it was started', st)
            s.set(st, r, 'live')
        else:
            if x is None: s.rep(f, ins.line, 'an argument list is ended that was not started (or was already ended)', st)
            if r[0] == 'a': s.rep(f, ins.line, "the caller's argument list is ended", st)
            s.set(st, r, None)
    def on_call(s, e, f, ins, st, name, args):
        ks = s.vafun.get(name) if name in EXTV else s.vafun.get(getattr(e.prog.callee(ins), 'key', None)) if ins.aux['callee'][0] == 'g' else None
        if ks is None or ks >= len(args): return None
        r = root(args[ks])
        if r[0] not in ('al', 'a'): return None
        x = s.get(st, r); s.n.setdefault('use', set()).add((f.key, ins.uid))
        if x == 'used': s.rep(f, ins.line, 'an argument list is consumed a second time', st)
        elif x is None: s.rep(f, ins.line, 'an argument list is used before it was started or after it was ended', st)
        else: s.set(st, r, 'used')
        return None
    def on_exit(s, e, f, ins, st, rv, reach):
        for m in st.mark:
            if m[0] == 'va' and m[1][0] == 'al' and m[2] in ('live', 'used'): s.rep(f, ins.line, 'an argument list is not ended on a path out of the function', st)

def is_va_list(t): return True

def c26(pid, tier):
    r = Result('Format provenance: printf-like functions are found by fixpoint from the platform ones; at each call the format must be a string constant of the program (then number and types of the arguments are compared with its conversions) or the format parameter of a caller that is variadic or takes an argument list itself. Argument-list typestate: started or copied, consumed once, ended once on every path.')
    for defs in ((), ('DEBUG',)): formats(r, compile_all(defs), bool(defs))
    p = compile_all(); e = engine.Engine(p, models.MODELS)
    vaf = valists(p)
    rest(r, p, vaf)
    r.need('format_sites', 250); r.need('constant_formats', 200); r.need('printf_like_library_functions', 5); r.need('va_start_sites', 8); r.need('va_use_sites', 8); return r

def formats(r, p, dbg):
    engine.Engine(p, models.MODELS); fl = Flow(p)
    # fixpoint: printf-like library functions and argument-list parameters
    like = {}; vaf = dict((n, v[1]) for n, v in EXTV.items())
    ch = True
    def fmtpos(i):
        n = p.calleename(i); g = p.callee(i)
        if g is not None: return like.get(g.key)
        if n in EXT: return EXT[n] + ('v',)
        if n in EXTV: return EXTV[n] + ('l',)
        if n in EXTS: return (EXTS[n], None, 's')
        return None
    while ch:
        ch = False
        for f in p.allfns:
            for i in f.calls():
                fp = fmtpos(i)
                if fp is None or fp[0] >= len(i.a): continue
                rs = fl.roots(f, i.a[fp[0]])
                for x in rs:
                    if x[0] == 'arg' and f.key not in like:
                        if f.vararg: like[f.key] = (x[1], len(f.params), 'v'); ch = True
                        elif fp[2] == 'l' and fp[1] < len(i.a):
                            q = [y[1] for y in fl.roots(f, i.a[fp[1]]) if y[0] == 'arg']
                            if q: like[f.key] = (x[1], q[0], 'l'); vaf[f.key] = q[0]; ch = True
    # a list may be passed through a va_copy first
    for f in p.allfns:
        for i in f.calls():
            if (p.calleename(i) or '').startswith('llvm.va_copy'):
                for y in fl.roots(f, i.a[1]):
                    if y[0] == 'arg' and f.key not in vaf: vaf[f.key] = y[1]
    ch = True
    while ch:
        ch = False
        for f in p.allfns:
            if f.key in like or f.key not in vaf: continue
            for i in f.calls():
                fp = fmtpos(i)
                if fp and fp[0] < len(i.a):
                    for x in fl.roots(f, i.a[fp[0]]):
                        if x[0] == 'arg' and f.key not in like: like[f.key] = (x[1], vaf[f.key], 'l'); ch = True
    # second pass: callers that became variadic wrappers of those
    for rnd in range(5):
        for f in p.allfns:
            for i in f.calls():
                fp = fmtpos(i)
                if fp is None or fp[0] >= len(i.a): continue
                for x in fl.roots(f, i.a[fp[0]]):
                    if x[0] == 'arg' and f.key not in like and f.vararg: like[f.key] = (x[1], len(f.params), 'v')
    r.cov['printf_like_library_functions'] = len(like)
    for f in p.allfns:
        for i in f.calls():
            fp = fmtpos(i)
            if fp is None or fp[0] >= len(i.a): continue
            r.count('format_sites')
            rs = fl.roots(f, i.a[fp[0]]); nm = p.calleename(i)
            for x in sorted(rs, key=repr):
                if x[0] == 'arg':
                    if f.key in like and like[f.key][0] == x[1]: r.count('forwarded_formats'); continue
                    r.add(f.file, i.line, f.name, 'format', 'the format of %s is an argument of a function that is not printf-like' % nm)
                elif x[0] == 'g':
                    b = cstr(f, x)
                    if b is None: r.add(f.file, i.line, f.name, 'format', 'the format of %s is not a string constant' % nm); continue
                    r.count('constant_formats')
                    if fp[2] != 'v': continue
                    if stray(b): r.add(f.file, i.line, f.name, 'conversion', 'the format of %s has a conversion that is not understood: %s' % (nm, b.decode('latin1'))); continue
                    w = want(b); got = ['double' if t.k == 'float' else repr(t) for t in i.aux['tys'][fp[1]:len(i.a)]]
                    r.count('argument_lists_compared')
                    if w != got:
                        r.add(f.file, i.line, f.name, 'arguments', 'the format %r of %s asks for (%s) but is given (%s)' % (b.decode('latin1'), nm, ', '.join(w), ', '.join(got)))
                    if b'%n' in b: r.add(f.file, i.line, f.name, 'conversion', 'the format of %s writes through an argument' % nm)
                else: r.add(f.file, i.line, f.name, 'format', 'the format of %s is data, neither a constant nor the caller\'s own format' % nm)
            if not rs: r.add(f.file, i.line, f.name, 'format', 'the format of %s cannot be traced' % nm)
    return vaf

def valists(p):
    return formats(Result(''), p, False)

def rest(r, p, vaf):
    h = VaHook(vaf)
    e = engine.Engine(p, models.MODELS, [h])
    fs = [f for f in p.allfns if f.vararg or f.key in vaf or any((p.calleename(i) or '').startswith('llvm.va_') for i in f.calls())]
    e.only(fs); e.run()
    for (k, line, msg), (f, path, lossy) in sorted(h.bad.items()):
        if not lossy: r.add(f.file, line, f.name, 'arglist', msg, path)
    r.cov['functions_with_argument_lists'] = len(fs)
    for k, v in h.n.items(): r.cov['va_%s_sites' % k] = len(v)
