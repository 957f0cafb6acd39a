"""Platform I/O whose failure is forked into a path of its own, for C08."""
import models
from models import Z
from engine import INF, NZ
from checks.util import cstr

NEG = {'write', 'read', 'rename', 'link', 'unlink', 'remove', 'ftruncate', 'fseek', 'fsync', 'lseek', 'truncate', 'mkdir', 'rmdir', 'symlink', 'chmod', 'fstat', 'stat', 'lstat', 'fflush'}
NAMES = NEG | {'fread', 'fwrite', 'fclose', 'fprintf', 'fputs', 'fputc', 'putc', 'ferror', 'open', 'fopen', 'fdopen', 'mkstemp', 'mmap', 'popen', 'dup', 'creat', 'tmpfile'}

def mark(s, f, st, ins, name): s.on('iofail', f, st, ins, name)

def neg(model, fv=-1):
    def m(s, f, ins, st, args):
        name = s.prog.calleename(ins); out = []
        for o in model(s, f, ins, st, args):
            n = o.copy(); s.setret(n, ins, ('c', fv)) if ins.res is not None else None
            s.note_fail(n, ins); out.append(n)
            if ins.res is not None:
                if not s.setfact(o, o.env[ins.res], (0, INF, Z)): continue
            out.append(o)
        return out
    return m

def fread_(s, f, ins, st, args):
    out = []
    for o in models.MODELS['fread'](s, f, ins, st, args):
        n = o.copy(); s.note_fail(n, ins)
        if ins.res is not None:
            v = n.env[ins.res]; k = args[2]
            if not s.setfact(n, v, (0, k[1] - 1 if k[0] == 'c' else 0, Z)): n = None
            s.setfact(o, v, (k[1], k[1], Z) if k[0] == 'c' and k[1] == 1 else (1, INF, Z))
        if n is not None: out.append(n)
        out.append(o)
    return out

def fwrite_(s, f, ins, st, args):
    out = []
    for o in models.MODELS['fwrite'](s, f, ins, st, args):
        n = o.copy(); s.note_fail(n, ins); k = args[2]
        if ins.res is not None:
            if k[0] == 'c': s.setfact(n, n.env[ins.res], (0, max(k[1] - 1, 0), Z)); s.setret(o, ins, k)
            else:
                # one item less than asked for
                s.setret(n, ins, ('e', 'add', k, ('c', -1))); s.setret(o, ins, k)
        out += [o, n]
    return out

def fclose_(s, f, ins, st, args):
    out = []
    w = ('wr', args[0]) in st.mark
    for o in models.MODELS['fclose'](s, f, ins, st, args):
        if w:
            n = o.copy(); s.note_fail(n, ins)
            if ins.res is not None: s.setret(n, ins, ('c', -1)); s.setret(o, ins, ('c', 0))
            out.append(n)
        out.append(o)
    return out

def fprint_(base):
    def m(s, f, ins, st, args):
        fp = args[0] if base == 'fprintf' else args[1]
        out = []
        for o in models.MODELS[base](s, f, ins, st, args):
            if ('wr', fp) in o.mark:
                n = o.copy(); s.note_fail(n, ins)
                if ins.res is not None: s.setret(n, ins, ('c', -1)); s.setfact(o, o.env[ins.res], (0 if base != 'fprintf' else 1, INF, Z))
                out.append(n)
            out.append(o)
        return out
    return m

def ferror_(s, f, ins, st, args):
    """asks for the condition that made fread fail"""
    out = []
    for o in models.MODELS['ferror'](s, f, ins, st, args):
        had = [m for m in o.mark if m[0] == 'fail' and m[2] in ('fread', 'fprintf', 'fputs')]
        n = o.copy()
        o.mark = o.mark - frozenset(had)
        if ins.res is not None: s.setret(o, ins, ('c', 0)); s.setfact(n, n.env[ins.res], (1, INF, Z))
        out.append(o)
        if had: out.append(n)
    return out

def fopen_(s, f, ins, st, args):
    m = cstr(f, args[1])
    out = models.MODELS['fopen'](s, f, ins, st, args)
    if m is None or any(c in m for c in b'wa+'):
        for o in out:
            v = o.env.get(ins.res)
            if v is not None and v[0] != 'c': o.mark = o.mark | {('wr', v)}
    return out

def build():
    d = dict(models.MODELS)
    for n in NEG:
        if n in d: d[n] = neg(d[n])
    d.update(fread=fread_, fwrite=fwrite_, fclose=fclose_, ferror=ferror_, fopen=fopen_, fprintf=fprint_('fprintf'), fputs=fprint_('fputs'))
    return d
