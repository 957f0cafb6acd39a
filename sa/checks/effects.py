"""Who may touch what: allocator routing (C04), shared state (C24), process effects (C25)."""
import os, re
from ir import compile_all, AnalysisError
import engine, models
from checks.framework import Result

def base(f): return os.path.basename(f.file)
TESTDRV = 'test.c'

def gval(f, v):
    """module-qualified global of an operand, through constant address arithmetic"""
    while isinstance(v, tuple) and v and v[0] in ('cgep', 'ccast'):
        v = v[-1] if v[0] == 'ccast' else v[1] if isinstance(v[1], tuple) and v[1] and v[1][0] == 'g' else next((x for x in v[1:] if isinstance(x, tuple) and x and x[0] == 'g'), None)
    return v if isinstance(v, tuple) and v and v[0] == 'g' else None

def operands(v):
    if isinstance(v, tuple):
        if v and v[0] in ('%', 'g'): yield v
        else:
            for x in v:
                yield from operands(x)
    elif isinstance(v, list):
        for x in v: yield from operands(x)

class Flow:
    """which addresses an SSA value may be derived from (globals, parameters, loads)"""
    def __init__(s, p): s.p = p; s.cache = {}
    def roots(s, f, v, seen=None):
        seen = seen if seen is not None else set()
        if not isinstance(v, tuple) or not v: return set()
        if v[0] == 'g': return {v}
        if v[0] != '%':
            return set(x for x in operands(v) if x[0] == 'g')
        if v in seen: return set()
        seen.add(v)
        for k, q in enumerate(f.params):
            if q[1] == v[1]: return {('arg', k)}
        i = f.defs.get(v[1])
        if i is None: return set()
        if i.op == 'gep': return s.roots(f, i.a[0], seen)
        if i.op == 'phi':
            o = set()
            for x, l in i.a: o |= s.roots(f, x, seen)
            return o
        if i.op == 'select': return s.roots(f, i.a[1], seen) | s.roots(f, i.a[2], seen)
        if i.op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'zext', 'sext', 'trunc', 'add', 'sub'): return s.roots(f, i.a[0], seen)
        if i.op == 'alloca': return {('al', i.uid)}
        if i.op == 'call':
            g = s.p.callee(i)
            return {('call', s.p.calleename(i))}
        if i.op == 'load': return {('load', i.uid)}
        return set()

OUTS = {'strcpy': (0,), 'strncpy': (0,), 'strcat': (0,), 'strncat': (0,), 'strlcpy': (0,), 'strlcat': (0,), 'snprintf': (0,), 'vsnprintf': (0,), 'sprintf': (0,), 'vsprintf': (0,),
        'fgets': (0,), 'fread': (0,), 'read': (1,), 'recv': (1,), 'stat': (1,), 'fstat': (1,), 'lstat': (1,), 'strftime': (0,), 'qsort': (0,), 'memcpy': (0,), 'memmove': (0,), 'memset': (0,),
        'gettimeofday': (0,), 'time': (0,), 'localtime_r': (1,), 'gmtime_r': (1,), 'strerror_r': (1,), 'inet_ntop': (2,), 'inet_pton': (2,), 'uname': (0,), 'strtok_r': (0, 2), 'strsep': (0,), 'getaddrinfo': (3,),
        'accept': (1, 2), 'getsockname': (1, 2), 'getsockopt': (3, 4), 'select': (1, 2, 3, 4), 'sigaction': (2,), 'sigemptyset': (0,), 'pipe': (0,), 'wait3': (0, 2), 'waitpid': (1,), 'strtol': (1,), 'strtoul': (1,), 'strtod': (1,),
        '__isoc23_strtol': (1,), '__isoc23_strtoumax': (1,), '__isoc23_strtoul': (1,)}

def writes_param(p, fl):
    """(function key, parameter) pairs through which something is stored, transitively"""
    W = set(); ch = True
    while ch:
        ch = False
        for f in p.allfns:
            for i in f.insts():
                tgt = []
                if i.op == 'store': tgt = [i.a[1]]
                elif i.op == 'call':
                    n = p.calleename(i) or ''
                    g = p.callee(i)
                    if n.startswith('llvm.mem'): tgt = [i.a[0]]
                    elif g is not None: tgt = [a for k, a in enumerate(i.a) if (g.key, k) in W]
                    else: tgt = [i.a[k] for k in OUTS.get(n, ()) if k < len(i.a)]
                for t in tgt:
                    for r in fl.roots(f, t):
                        if r[0] == 'arg' and (f.key, r[1]) not in W: W.add((f.key, r[1])); ch = True
    return W

def callers_closure(p, e, f):
    """the public functions whose call ends up in f through static helpers only (f itself when public)"""
    rev = {}
    for g in p.allfns:
        for h in e.callees_[g.key]: rev.setdefault(h.key, []).append(g)
    seen = {}; w = [f]
    while w:
        x = w.pop()
        if x.key in seen: continue
        seen[x.key] = x
        if x.internal: w += rev.get(x.key, [])
    return [x for x in seen.values() if not x.internal]

HIDDEN = {'strtok', 'strerror', 'localtime', 'gmtime', 'asctime', 'ctime', 'getpwnam', 'getpwuid', 'getgrnam', 'getgrgid', 'gethostbyname', 'gethostbyaddr', 'getservbyname', 'getservbyport',
          'getprotobyname', 'inet_ntoa', 'ttyname', 'tmpnam', 'tempnam', 'rand', 'srand', 'random', 'srandom', 'drand48', 'srand48', 'lrand48', 'setlocale', 'strsignal', 'getopt', 'crypt', 'readdir', 'ctermid',
          'basename', 'dirname', 'ptsname', 'getlogin', 'l64a', 'ecvt', 'fcvt', 'hcreate', 'hsearch', 'mblen', 'mbtowc', 'wctomb'}

def c24(pid, tier):
    r = Result('Effect analysis: every non-constant global and static variable is enumerated; every store, block copy, output argument or writing callee that can reach one of them is a write of shared state, and is accepted only in the log/allocator setters (or what only they call) and in the test driver. Calls of platform functions that keep hidden static state are listed per call site.')
    p = compile_all(); e = engine.Engine(p, models.MODELS); fl = Flow(p); W = writes_param(p, fl)
    muts = {}
    for m in p.modules.values():
        for g in m.globals.values():
            if not g.const and not g.decl: muts[(m.name, g.name)] = g
    for f in p.allfns:
        if base(f) == TESTDRV: continue
        for i in f.insts():
            tgt = []
            if i.op == 'store': tgt = [(i.a[1], 'stored to')]
            elif i.op == 'call':
                n = p.calleename(i) or 'a callback'; g = p.callee(i)
                if n.startswith('llvm.mem'): tgt = [(i.a[0], 'overwritten')]
                elif g is not None: tgt = [(a, 'written by %s' % g.name) for k, a in enumerate(i.a) if (g.key, k) in W]
                elif n in OUTS: tgt = [(i.a[k], 'written by %s' % n) for k in OUTS[n] if k < len(i.a)]
                if n in HIDDEN and g is None:
                    r.count('hidden_state_calls'); r.add(f.file, i.line, f.name, 'hidden', '%s keeps its result or state in storage shared by the whole process' % n)
                r.count('calls')
            for t, how in tgt:
                r.count('write_sites')
                for x in fl.roots(f, t):
                    if x[0] != 'g': continue
                    n = x[1].split(':')[-1]
                    if (f.mod.name, n) not in muts and not any(k[1] == n for k in muts): 
                        if n in f.mod.globals and not f.mod.globals[n].decl: continue
                        if f.mod.functions.get(n): continue
                    pub = callers_closure(p, e, f)
                    if pub and all(re.match(r'u_(log|memory)_set_', q.name) for q in pub): r.count('writes_by_documented_setters'); continue
                    r.add(f.file, i.line, f.name, 'shared', 'the static variable %s is %s' % (n, how))
    r.cov['mutable_globals'] = len(muts); r.sample(['%s:%s' % k for k in sorted(muts)])
    r.need('mutable_globals', 5); r.need('writes_by_documented_setters', 5); r.need('write_sites', 500); return r

FORBID = {'exit': 'ends the process', '_exit': 'ends the process', '_Exit': 'ends the process', 'quick_exit': 'ends the process', 'abort': 'ends the process', '__assert_fail': 'ends the process', 'atexit': 'registers process exit code', 'on_exit': 'registers process exit code',
          'err': 'ends the process', 'errx': 'ends the process', 'verr': 'ends the process', 'verrx': 'ends the process', 'longjmp': 'leaves the caller', 'raise': 'raises a signal', 'kill': 'sends a signal', 'killpg': 'sends a signal', 'pthread_kill': 'sends a signal',
          'signal': 'redirects a signal', 'sigaction': 'redirects a signal', 'sigprocmask': 'masks signals', 'pthread_sigmask': 'masks signals', 'sigsuspend': 'masks signals', 'alarm': 'arms a signal', 'setitimer': 'arms a signal', 'ualarm': 'arms a signal', 'timer_create': 'arms a signal',
          'chdir': 'changes the working directory', 'fchdir': 'changes the working directory', 'chroot': 'changes the root directory', 'umask': 'changes the file mode mask', 'setuid': 'changes credentials', 'setgid': 'changes credentials', 'seteuid': 'changes credentials', 'setegid': 'changes credentials',
          'setreuid': 'changes credentials', 'setregid': 'changes credentials', 'setresuid': 'changes credentials', 'setgroups': 'changes credentials', 'initgroups': 'changes credentials', 'setsid': 'changes the session', 'setpgid': 'changes the process group', 'daemon': 'detaches the process', 'nice': 'changes the priority', 'setpriority': 'changes the priority',
          'setlocale': 'changes the locale', 'uselocale': 'changes the locale', 'tzset': 'changes the time zone', 'setrlimit': 'changes resource limits', 'execl': 'replaces the process', 'execlp': 'replaces the process', 'execle': 'replaces the process', 'execv': 'replaces the process', 'execvp': 'replaces the process', 'execve': 'replaces the process', 'execvpe': 'replaces the process', 'fexecve': 'replaces the process',
          'fork': 'forks the process', 'vfork': 'forks the process', 'system': 'runs a command', 'putenv': 'changes the environment', 'clearenv': 'changes the environment', 'unsetenv': 'changes the environment', 'setenv': 'changes the environment', 'openlog': 'changes the syslog identity', 'closelog': 'closes the syslog connection', 'setlogmask': 'changes the syslog mask',
          'freopen': 'redirects a stream', 'dup2': 'redirects a descriptor', 'dup3': 'redirects a descriptor', 'closefrom': 'closes descriptors', 'ptrace': 'traces', 'prctl': 'changes process attributes', 'mallopt': 'changes the allocator', 'pthread_exit': 'ends the thread', 'pthread_cancel': 'ends a thread', 'reboot': 'restarts the machine', 'mlockall': 'locks memory'}
STDOUTS = {'printf': 'standard output', 'vprintf': 'standard output', 'puts': 'standard output', 'putchar': 'standard output', 'perror': 'standard error', 'psignal': 'standard error', 'warn': 'standard error', 'warnx': 'standard error', 'vwarn': 'standard error', 'vwarnx': 'standard error', 'getchar': 'standard input', 'gets': 'standard input', 'scanf': 'standard input'}
PRINTER = re.compile(r'print|console')

def c25(pid, tier):
    r = Result('Effect analysis over the resolved call graph: every call of a platform function outside the test driver is classified; functions that end, signal, reconfigure or replace the process are forbidden, and the standard streams may be reached only from the console logger and the explicit print functions.')
    p = compile_all(); e = engine.Engine(p, models.MODELS)
    for f in p.allfns:
        if base(f) == TESTDRV: continue
        r.count('functions')
        for i in f.insts():
            if i.op == 'unreachable':
                pass
            std = set(x[1] for v in i.a for x in operands(v) if x[0] == 'g' and x[1] in ('stdout', 'stderr', 'stdin'))
            use = [(x, 'standard ' + {'stdout': 'output', 'stderr': 'error', 'stdin': 'input'}[x]) for x in std]
            if i.op == 'call':
                n = p.calleename(i)
                if n and p.callee(i) is None and not n.startswith('llvm.'):
                    r.count('platform_calls')
                    if n in FORBID: r.add(f.file, i.line, f.name, 'process', '%s %s' % (n, FORBID[n]))
                    if n in STDOUTS: use.append((n, STDOUTS[n]))
                    if n in ('write', 'read', 'dprintf', 'close', 'dup') and i.a and i.a[0][0] == 'c' and i.a[0][1] in (0, 1, 2): use.append((n, 'a standard descriptor'))
                # functions of the platform whose address is taken (callbacks)
            for v in i.a:
                for x in operands(v):
                    if x[0] == 'g' and x[1] in FORBID and f.mod.functions.get(x[1]) is None and not p.functions.get(x[1]) and x[1] in f.mod.decls: r.add(f.file, i.line, f.name, 'process', 'the address of %s is taken' % x[1])
            for what, where in use:
                r.count('standard_stream_uses')
                pub = callers_closure(p, e, f)
                if pub and all(PRINTER.search(q.name) for q in pub): r.count('uses_by_printers'); continue
                r.add(f.file, i.line, f.name, 'stream', '%s is used outside the console logger and the print functions (%s)' % (where, what))
    r.need('platform_calls', 250); r.need('uses_by_printers', 3); return r

RAW = {'malloc': 'allocates', 'calloc': 'allocates', 'realloc': 'allocates', 'reallocarray': 'allocates', 'free': 'releases', 'strdup': 'allocates', 'strndup': 'allocates', 'asprintf': 'allocates', 'vasprintf': 'allocates', 'getline': 'allocates', 'getdelim': 'allocates', 'memalign': 'allocates', 'posix_memalign': 'allocates',
       'aligned_alloc': 'allocates', 'valloc': 'allocates', 'realpath': 'allocates', 'open_memstream': 'allocates', 'get_current_dir_name': 'allocates', 'tempnam': 'allocates', 'wcsdup': 'allocates', 'cfree': 'releases', 'scandir': 'allocates'}

def c04(pid, tier):
    r = Result('Allocator-routing effect analysis: no function outside the allocator module calls, or takes the address of, a platform allocation function; in the allocator module each public wrapper reaches the platform only through the pointer which the setter for that kind stores, the initial pointers are of the right kind, and the ownership typestate reports a block released through another family.')
    from checks import paths
    p, e = paths.run_engine(); 
    paths.collect(r, e, ('kind',))
    for f in p.allfns:
        if base(f) == 'memory.c': continue
        for i in f.insts():
            if i.op == 'call':
                n = p.calleename(i)
                if p.callee(i) is None and n in RAW: r.add(f.file, i.line, f.name, 'raw', '%s %s behind the back of the installed allocator' % (n, RAW[n]))
                if n in ('u_malloc', 'u_calloc', 'u_zalloc', 'u_realloc', 'u_free', 'u_strdup', 'u_strndup'): r.count('routed_sites')
            for v in i.a:
                for x in operands(v):
                    if x[0] == 'g' and x[1] in RAW and x[1] in f.mod.decls and not p.functions.get(x[1]): r.add(f.file, i.line, f.name, 'raw', 'the address of %s is taken' % x[1])
    # the module itself
    kinds = [('malloc', 'u_memory_set_malloc', ('u_malloc',)), ('calloc', 'u_memory_set_calloc', ('u_calloc', 'u_zalloc')), ('realloc', 'u_memory_set_realloc', ('u_realloc',)), ('free', 'u_memory_set_free', ('u_free',))]
    fl = Flow(p); slot = {}
    def slotof(f, v): return addr(e, f, v)
    mod = next(m for m in p.modules.values() if m.name == 'memory')
    init = {}
    for kind, setter, users in kinds:
        f = p.functions.get(setter)
        if f is None: raise AnalysisError(setter + ' is gone')
        st = [i for i in f.insts() if i.op == 'store' and ('%', f.params[0][1]) == i.a[0]]
        sl = set(x for x in (slotof(f, i.a[1]) for i in st) if x)
        if len(sl) != 1:
            r.add(f.file, 0, f.name, 'routing', 'the installed %s function is not stored in one place' % kind); continue
        slot[kind] = sl.pop(); r.count('setters')
    if len(set(slot.values())) != len(slot): r.add('memory.c', 0, 'setters', 'routing', 'two setters store into the same place')
    for kind, setter, users in kinds:
        if kind not in slot: continue
        for u in users:
            f = p.functions.get(u)
            if f is None: raise AnalysisError(u + ' is gone')
            # through helpers of the module
            seen = {}; w = [f]; calls = 0
            while w:
                x = w.pop()
                if x.key in seen: continue
                seen[x.key] = x
                for i in x.calls():
                    c = i.aux['callee']
                    if c[0] == 'g':
                        g = p.callee(i)
                        if g is not None and base(g) == 'memory.c': w.append(g)
                        elif p.calleename(i) in RAW: r.add(x.file, i.line, x.name, 'routing', '%s goes to %s directly' % (u, p.calleename(i)))
                        continue
                    d = x.defs.get(c[1]); sl = slotof(x, d.a[0]) if d is not None and d.op == 'load' else None
                    calls += 1; r.count('routed_calls')
                    if sl == slot[kind] and x is f: passes(r, f, i, kind, u)
                    if sl != slot[kind]: r.add(x.file, i.line, x.name, 'routing', '%s does not go through the function installed for %s' % (u, kind))
            if not calls: r.add(f.file, 0, f.name, 'routing', '%s never calls the installed %s function' % (u, kind))
        # initial value
        gname, off = slot[kind]
        g = mod.globals.get(gname)
        v = initslot(g, off)
        if v is None or v[0] != 'g' or v[1] != kind: r.add('memory.c', 0, setter, 'routing', 'the initial %s function is %s' % (kind, v[1] if v else 'missing'))
        r.count('initial_functions')
    r.need('routed_sites', 100); r.need('setters', 4); r.need('routed_calls', 4); return r

def passes(r, f, i, kind, u):
    """the wrapper hands its own arguments to the installed function and its result back"""
    want = [('%', q[1]) for q in f.params]
    got = list(i.a)
    ok = got == want if not (kind == 'calloc' and len(want) == 1) else sorted(map(repr, got)) == sorted(map(repr, [want[0], ('c', 1)]))
    if not ok: r.add(f.file, i.line, f.name, 'routing', '%s does not hand its own arguments to the installed %s function' % (u, kind))
    r.count('forwarded_argument_lists')

def initslot(g, off):
    from ir import sizeof
    x = g.init
    if x is None: return None
    if x[0] == 'agg':
        o = 0
        for t, v in x[1]:
            sz = sizeof(t)
            if o == off: return v
            o += sz
        return None
    return x if off == 0 else None

def addr(e, f, v):
    """(global, constant offset) an operand denotes, or None"""
    st = engine.State()
    def fill(v, d=0):
        if v[0] != '%': return
        i = f.defs.get(v[1])
        if i is not None and i.op == 'gep' and d < 8:
            for x in i.a: fill(x, d + 1)
            st.env[v[1]] = e.gep(f, i, st)
        else: st.env[v[1]] = ('s', -7, v[1])
    fill(v)
    r = e.val(st, v)
    if r[0] == 'g': return (r[1].split(':')[-1], 0)
    if r[0] == 'p' and r[1][0] == 'g': return (r[1][1].split(':')[-1], r[2])
    return None
