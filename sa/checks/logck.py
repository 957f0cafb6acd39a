"""Logging module: errno preservation (C10) and lock discipline (C11)."""
import os
from ir import compile_all, AnalysisError
import engine, models
from engine import ERRNO, NZ, INF, lines
from checks.framework import Result

LOG = 'log.c'
def base(f): return os.path.basename(f.file)

def stored_by(p, name, arg):
    """the global that the setter `name` stores its argument `arg` in"""
    f = p.functions.get(name)
    if f is None: raise AnalysisError('%s is gone' % name)
    out = []
    q = f.params[arg][1]
    for i in f.insts():
        if i.op == 'store' and i.a[0] == ('%', q) and i.a[1][0] == 'g': out.append(i.a[1][1])
    if len(out) != 1: raise AnalysisError('%s does not store its argument in one variable' % name)
    return ('g', f.mod.name + ':' + out[0])

def sinks(p, e, hookvar):
    """functions of the module that emit a message, directly or through a helper of the module"""
    emit = set()
    for f in p.allfns:
        if base(f) != LOG: continue
        for i in f.calls():
            c = i.aux['callee']
            if c[0] != 'g' and hookvar is not None and any(j.res == c[1] and j.op == 'load' and j.a[0] == ('g', hookvar[1].split(':')[-1]) for j in f.insts()): emit.add(f.key)
            if c[0] == 'g' and c[1] in ('syslog', 'vsyslog', 'fprintf', 'vfprintf', 'fputs', 'fwrite', 'write'): emit.add(f.key)
    byk = {f.key: f for f in p.allfns}
    ch = True
    while ch:
        ch = False
        for f in p.allfns:
            if base(f) == LOG and f.key not in emit and any(g.key in emit for g in e.callees_[f.key]): emit.add(f.key); ch = True
    return [byk[k] for k in sorted(emit)]

class ErrnoHook:
    def __init__(s, fs): s.fs = set(fs); s.dirty = set(); s.bad = {}; s.exits = 0; s.clob = 0
    def reset(s): s.bad = {}; s.exits = 0; s.clob = 0
    def again(s, f): s.bad.pop(f.key, None)
    def export(s): return (s.bad, s.exits, s.clob)
    def merge(s, x): s.bad.update(x[0]); s.exits += x[1]; s.clob += x[2]
    def keeps_errno(s, g): return g.key in s.fs and g.key not in s.bad
    V0 = ('s', -1, 'errno0')
    def start(s, e, f, st): st.mem[(ERRNO, 0)] = (s.V0, ('raw', 'i32'), 4, 'i32')
    def on_call(s, e, f, ins, st, name, args):
        if (ERRNO, 0) not in st.mem: s.clob += 1; st.mark = st.mark | {('ts', 'errno')}
        return None
    def on_store(s, e, f, ins, st, p, v, tag):
        if p == ERRNO: st.mark = st.mark - {('ts', 'errno')} if v == s.V0 else st.mark | {('ts', 'errno')}
    def on_exit(s, e, f, ins, st, rv, reach):
        s.exits += 1
        if ('ts', 'errno') in st.mark: s.bad.setdefault(f.key, (f, ins.line, lines(st.trace)))

def c10(pid, tier):
    r = Result('errno dataflow over the logging module: errno holds a symbolic entry value; every call that is not known to leave errno alone (helpers of the module are judged by their own summary) replaces it; at each exit of each public function that can emit a message errno must hold the entry value again.')
    p = compile_all(); e = engine.Engine(p, models.MODELS)
    hk = stored_by(p, 'u_log_set_hook', 0)
    em = sinks(p, e, hk)
    fs = e.closure(em)
    h = ErrnoHook(fs)
    e = engine.Engine(p, models.MODELS, [h]); e.only(em); e.run(1)
    pub = [f for f in em if not f.internal]
    for f in pub:
        if f.key in h.bad:
            g, ln, path = h.bad[f.key]
            r.add(f.file, ln, f.name, 'errno', 'a path leaves the function without errno as the caller had it', path)
    r.cov.update(message_emitting_functions=len(em), public_functions=len(pub), exits_examined=h.exits, calls_with_errno_clobbered=h.clob)
    r.sample([f.name for f in pub]); r.need('public_functions', 2); r.need('calls_with_errno_clobbered', 5); return r

class LockHook:
    def __init__(s, lock, unlock, hook):
        s.lock = lock; s.unlock = unlock; s.hook = hook; s.init()
    def init(s): s.bad = {}; s.acq = 0; s.rel = 0; s.uses = 0
    def reset(s): s.init()
    def again(s, f): s.bad = {k: v for k, v in s.bad.items() if k[0] != f.key}
    def export(s): return (s.bad, s.acq, s.rel, s.uses)
    def merge(s, x): s.bad.update(x[0]); s.acq += x[1]; s.rel += x[2]; s.uses += x[3]
    def start(s, e, f, st):
        # both halves of the lock are installed
        for g in (s.lock, s.unlock): st.facts[('m', g, 0)] = (1, INF, NZ)
    def n(s, st):
        for m in st.mark:
            if m[0] == 'ts' and m[1] == 'lk': return m[2]
        return 0
    def set(s, st, n):
        lo = min([m[2] for m in st.mark if m[0] == 'ts' and m[1] == 'lo'] + [n, 0])
        st.mark = frozenset(m for m in st.mark if not (m[0] == 'ts' and m[1] in ('lk', 'lo'))) | {('ts', 'lk', n), ('ts', 'lo', lo)}
    def report(s, f, st, line, msg): s.bad.setdefault((f.key, line, msg), (f, lines(st.trace)))
    def src(s, f, c):
        """the variable a called pointer was loaded from"""
        for j in f.insts():
            if j.res == c[1] and j.op == 'load' and j.a[0][0] == 'g': return ('g', f.mod.name + ':' + j.a[0][1])
        return None
    def on_call(s, e, f, ins, st, name, args):
        c = ins.aux['callee']
        if c[0] == 'g': return None
        v = s.src(f, c)
        if v == s.lock: s.acq += 1; s.set(st, s.n(st) + 1)
        elif v == s.unlock: s.rel += 1; s.set(st, s.n(st) - 1)
        elif v == s.hook: s.use(f, ins, st, 'called')
        return None
    def use(s, f, ins, st, how):
        s.uses += 1
        if s.n(st) <= 0: st.mark = st.mark | {('ts', 'need', ins.line, how)}
    def on_load(s, e, f, ins, st, p, tag):
        if p == s.hook: s.use(f, ins, st, 'read')
    def on_store(s, e, f, ins, st, p, v, tag):
        if p == s.hook: s.use(f, ins, st, 'written')
    def on_outcome(s, e, f, ins, st, g, args, o):
        n = s.n(st)
        d = 0; lo = 0
        for m in o.mark:
            if m[0] == 'ts' and m[1] == 'lk': d = m[2]
            if m[0] == 'ts' and m[1] == 'lo': lo = m[2]
        for m in o.mark:
            if m[0] == 'ts' and m[1] == 'need' and n <= 0: st.mark = st.mark | {('ts', 'need', m[2], m[3])}
        if d or lo:
            s.set(st, n + lo); s.set(st, n + d)
    def on_exit(s, e, f, ins, st, rv, reach):
        if f.internal: return
        n = s.n(st)
        lo = min([m[2] for m in st.mark if m[0] == 'ts' and m[1] == 'lo'] + [0])
        if lo < 0: s.report(f, st, ins.line, 'the log lock is released without being held')
        elif n > 0: s.report(f, st, ins.line, 'the log lock is still held when the function returns')
        for m in st.mark:
            if m[0] == 'ts' and m[1] == 'need': s.report(f, st, m[2], 'the installed log hook is %s without the log lock' % m[3])
        hi = [m for m in st.mark if m[0] == 'ts' and m[1] == 'dbl']
        if hi: s.report(f, st, hi[0][2], 'the log lock is taken while it is already held')

class LockHook2(LockHook):
    def set(s, st, n):
        LockHook.set(s, st, n)
        if n > 1: st.mark = st.mark | {('ts', 'dbl', 0)}

def c11(pid, tier):
    r = Result('Lock typestate: the variables installed by u_log_set_lock/u_log_set_unlock/u_log_set_hook identify acquire, release and sink; the balance is followed over every path and through helper summaries; every public function must return with the balance it was entered with, never go below it, never take the lock twice, and load, store or call the installed hook only while holding it.')
    p = compile_all()
    lk, ul, hk = (stored_by(p, n, 0) for n in ('u_log_set_lock', 'u_log_set_unlock', 'u_log_set_hook'))
    h = LockHook2(lk, ul, hk)
    e = engine.Engine(p, models.MODELS, [h])
    fs = [f for f in p.allfns if base(f) == LOG]
    e.only(fs); e.run(1)
    for (k, line, msg), (f, path) in sorted(h.bad.items()): r.add(f.file, line, f.name, 'lock', msg, path)
    r.cov.update(functions=len(fs), acquires=h.acq, releases=h.rel, hook_accesses=h.uses)
    r.need('acquires', 1); r.need('releases', 1); r.need('hook_accesses', 3); return r
