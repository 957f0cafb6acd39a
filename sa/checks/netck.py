"""C28: sockets are set up in the right order and only as asked."""
import os
from ir import compile_all, consts, AnalysisError
import engine, models
from engine import INF, NZ, root, lines
from checks.framework import Result
from checks.util import members

EV = {'socket': 'socket', 'u_socket': 'socket', 'setsockopt': 'opt', 'u_setsockopt': 'opt', 'bind': 'bind', 'u_bind': 'bind', 'listen': 'listen', 'u_listen': 'listen',
      'connect': 'connect', 'u_connect': 'connect', 'u_connect_ex': 'connect'}
WRAP = {'u_socket': 'socket', 'u_bind': 'bind', 'u_listen': 'listen', 'u_setsockopt': 'setsockopt', 'u_getsockopt': 'getsockopt', 'u_accept': 'accept'}
NAMES = ['U_NET_OPT_DONT_REUSE_ADDR', 'U_NET_OPT_DONT_CONNECT', 'U_NET_OPT_SCTP_ONE_TO_MANY', 'U_NET_OPT_DGRAM_BROADCAST', 'SOCK_STREAM', 'SOCK_DGRAM', 'SOCK_SEQPACKET', 'AF_UNIX',
         'SOL_SOCKET', 'SO_REUSEADDR', 'SO_BROADCAST', 'U_NET_SSOCK', 'U_NET_CSOCK', 'F_GETFL', 'F_SETFL', 'O_NONBLOCK', 'IPPROTO_TCP', 'TCP_NODELAY', 'IPPROTO_SCTP', 'SOMAXCONN']
INCS = ('sys/socket.h', 'netinet/in.h', 'netinet/tcp.h', 'fcntl.h')

def ands(v, out):
    """(x & constant) terms inside a value"""
    if v[0] == 'e' and v[1].startswith('and') and v[3][0] == 'c': out.append(v)
    for x in v[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str): ands(x, out)
    return out

class Net:
    def __init__(s, K): s.K = K; s.init()
    def init(s): s.bad = {}; s.cnt = {}
    def reset(s): s.init()
    def again(s, f): s.bad = {k: v for k, v in s.bad.items() if k[0] != f.key}
    def export(s): return (s.bad, s.cnt)
    def merge(s, x):
        s.bad.update(x[0])
        for k, v in x[1].items(): s.cnt[k] = s.cnt.get(k, 0) + v
    def n(s, k): s.cnt[k] = s.cnt.get(k, 0) + 1
    def err(s, f, line, st, msg): s.bad.setdefault((f.key, msg), (f, line, msg, lines(st.trace)))
    def put(s, st, *m): st.mark = st.mark | {('ts',) + m}
    def drop(s, st, p): st.mark = frozenset(m for m in st.mark if not (m[0] == 'ts' and p(m)))
    def marks(s, st, k): return [m for m in st.mark if m[0] == 'ts' and m[1] == k]
    def ev(s, st, k): return [m for m in s.marks(st, 'ev') if m[2] == k]

    def bits(s, e, st, v):
        for t in ands(v, []):
            if t[3][1] in s.bitset:
                x = e.fact(st, t)
                if x[0] == x[1] == 0: s.put(st, 'bit', t[3][1], 0)
                elif 0 in x[2] or x[0] > 0: s.put(st, 'bit', t[3][1], 1)

    @property
    def bitset(s): return {s.K[n] for n in NAMES if n.startswith('U_NET_OPT')}

    def on_taken(s, e, f, term, st, c, b):
        s.bits(e, st, c); s.settle(e, st)
    def settle(s, e, st):
        for m in s.marks(st, 'ev'):
            if ('ts', 'ok') + m[2:] in st.mark: continue
            x = e.fact(st, m[3])
            if x[0] >= 0 or (x[1] == INF and -1 in x[2]): s.put(st, 'ok', *m[2:])
        for m in s.marks(st, 'sock'):
            # what is known about kind and family of the socket
            for k, v, vals in (('type', m[4], ('SOCK_STREAM', 'SOCK_DGRAM', 'SOCK_SEQPACKET')), ('dom', m[3], ('AF_UNIX',))):
                x = e.fact(st, v) if v[0] != 'c' else (v[1], v[1], ())
                for n in vals:
                    c = s.K[n]
                    if x[0] == x[1] == c: s.put(st, 'is', n, 1)
                    elif c in x[2] or c < x[0] or c > x[1]: s.put(st, 'is', n, 0)

    def on_call(s, e, f, ins, st, name, args):
        k = EV.get(name)
        if f.name in WRAP or k is None: 
            return None
        if k == 'socket':
            s.drop(st, lambda m: m[1] in ('ev', 'ok', 'sock', 'is')); s.n('sockets_created'); return None
        sk = s.marks(st, 'sock')
        if not sk: return None       # works on a descriptor of the caller
        if args[0] != sk[0][2]: s.err(f, ins.line, st, '%s on something other than the socket just created' % k)
        if not any(m[2] == 'socket' for m in s.marks(st, 'ok')): s.err(f, ins.line, st, '%s on a socket that may not have been created' % k)
        if k == 'opt':
            s.n('options_applied')
            for x in ('bind', 'listen', 'connect'):
                if s.ev(st, x): s.err(f, ins.line, st, 'socket option applied after %s' % x)
        elif k == 'bind':
            s.n('binds')
            if s.ev(st, 'listen') or s.ev(st, 'connect'): s.err(f, ins.line, st, 'bind after listen or connect')
        elif k == 'listen':
            s.n('listens')
            if not any(m[2] == 'bind' for m in s.marks(st, 'ok')): s.err(f, ins.line, st, 'listen on a socket that was not bound successfully')
        elif k == 'connect': s.n('connects')
        if k in ('bind', 'connect'):
            if [args[1], args[2]] != [('a', 0), ('a', 1)] and args[1][0] == 'a': s.err(f, ins.line, st, '%s uses another address than the one given' % k)
        return None

    def after_call(s, e, f, ins, st, name, args, targets):
        if f.name in WRAP:
            if name == WRAP[f.name]:
                s.n('wrapped_calls')
                if list(args) != [('a', i) for i in range(len(args))]: s.err(f, ins.line, st, '%s does not pass its arguments on' % f.name)
                s.drop(st, lambda m: m[1] == 'w'); s.put(st, 'w', st.env[ins.res])
            return
        k = EV.get(name)
        if k == 'socket':
            s.put(st, 'sock', st.env[ins.res], args[0], args[1]); s.put(st, 'ev', k, st.env[ins.res])
        elif k == 'opt':
            lev, o = args[1], args[2]
            key = 'opt:%s:%s' % (lev[1] if lev[0] == 'c' else '?', o[1] if o[0] == 'c' else '?')
            if o[0] == 'c' and (lev[1], o[1]) in ((s.K['SOL_SOCKET'], s.K['SO_REUSEADDR']), (s.K['SOL_SOCKET'], s.K['SO_BROADCAST']), (s.K['IPPROTO_TCP'], s.K['TCP_NODELAY'])):
                w = st.mem.get((args[3], 0))
                if w is not None and w[0] == ('c', 0): s.err(f, ins.line, st, 'a socket option is switched off instead of on')
                if w is None or w[0][0] != 'c': s.err(f, ins.line, st, 'a socket option is set from a value that is not known to be on')
                s.n('option_values')
            s.put(st, 'ev', key, st.env[ins.res])
        elif k: s.put(st, 'ev', k, st.env[ins.res])
        elif name == 'u_net_set_nonblocking': s.put(st, 'nb', args[0], st.env[ins.res])
        elif name == 'u_net_unset_nonblocking': s.drop(st, lambda m: m[1] == 'nb' and m[2] == args[0])
        elif name == 'fcntl' and len(args) == 3 and args[1] == ('c', s.K['F_GETFL']): s.put(st, 'fl', args[0], st.env[ins.res])
        elif name == 'fcntl' and len(args) == 3 and args[1] == ('c', s.K['F_SETFL']):
            s.n('flag_updates'); v = args[2]; nb = s.K['O_NONBLOCK']
            old = [m[3] for m in s.marks(st, 'fl') if m[2] == args[0]]
            good = v[0] == 'e' and v[2] in old and v[3][0] == 'c' and (v[1].startswith('or') and v[3][1] == nb or v[1].startswith('and') and v[3][1] in (~nb, ~nb & 0xffffffff))
            if not good: s.err(f, ins.line, st, 'descriptor flags are replaced instead of changing O_NONBLOCK alone')
            else:
                s.drop(st, lambda m: m[1] == 'nb' and m[2] == args[0])
                if v[1].startswith('or'): s.put(st, 'nb', args[0], st.env[ins.res])
        s.settle(e, st)

    def is_(s, st, n):
        r = {m[3] for m in s.marks(st, 'is') if m[2] == n}
        return r.pop() if len(r) == 1 else None
    def bit(s, st, n):
        r = {m[3] for m in s.marks(st, 'bit') if m[2] == s.K[n]}
        return r.pop() if len(r) == 1 else None

    def on_exit(s, e, f, ins, st, rv, reach):
        s.settle(e, st)
        if f.name in WRAP:
            w = s.marks(st, 'w')
            if w and rv != w[0][2] and not (e.fact(st, rv)[:2] == e.fact(st, w[0][2])[:2] and e.fact(st, rv)[0] == e.fact(st, rv)[1]):
                s.err(f, ins.line, st, '%s does not return the result of the call it wraps' % f.name)
            if not w:
                x = e.fact(st, rv)
                if x[1] >= 0: s.err(f, ins.line, st, '%s can succeed without making the call it wraps' % f.name)
            return
        if f.name == 'u_connect_ex' and s.marks(st, 'nb'):
            s.n('timed_connect_exits'); s.err(f, ins.line, st, 'the socket of the caller is left in non-blocking mode')
        if rv is None or f.ret.k != 'int': return
        sk = s.marks(st, 'sock')
        if not sk:
            if s.worker(f) and e.fact(st, rv)[1] >= 0: s.err(f, ins.line, st, 'success without a socket')
            return
        if not s.worker(f): return
        if rv != sk[0][2]:
            x = e.fact(st, rv)
            if x[1] >= 0 and x != e.fact(st, sk[0][2]): s.err(f, ins.line, st, 'success is reported with something other than the socket')
            return
        x = e.fact(st, rv)
        if x[1] < 0: return
        s.n('descriptor_returns')
        ok = {m[2] for m in s.marks(st, 'ok')}; did = {m[2] for m in s.marks(st, 'ev')}
        # every step that was started succeeded
        for k in sorted(did - ok):
            s.err(f, ins.line, st, 'the descriptor is returned although %s may have failed' % k)
        K = s.K
        names = s.evs(f)
        reuse = 'opt:%d:%d' % (K['SOL_SOCKET'], K['SO_REUSEADDR']); bc = 'opt:%d:%d' % (K['SOL_SOCKET'], K['SO_BROADCAST'])
        if s.passive(f):
            if 'bind' not in did: s.err(f, ins.line, st, 'a passive socket is returned without having been bound')
            lst = [s.is_(st, 'SOCK_STREAM'), s.is_(st, 'SOCK_SEQPACKET')]
            if 'listen' in did and 1 not in lst: s.err(f, ins.line, st, 'listen on a socket that may not be connection oriented')
            if 'listen' not in did and lst != [0, 0]: s.err(f, ins.line, st, 'a connection oriented passive socket may be returned without listen')
            want = [s.is_(st, 'AF_UNIX'), s.bit(st, 'U_NET_OPT_DONT_REUSE_ADDR')]
            if reuse in did and want != [0, 0]: s.err(f, ins.line, st, 'address reuse is enabled although the caller declined it or the family has none')
            if reuse not in did and 1 not in want: s.err(f, ins.line, st, 'address reuse is not enabled although the caller did not decline it')
        if s.active(f):
            b = s.bit(st, 'U_NET_OPT_DONT_CONNECT')
            if 'connect' in did and b != 0: s.err(f, ins.line, st, 'connect although the caller may have asked not to')
            if 'connect' not in did and b != 1: s.err(f, ins.line, st, 'an active socket is returned unconnected although the caller did not ask for that')
            want = [s.is_(st, 'SOCK_DGRAM'), s.bit(st, 'U_NET_OPT_DGRAM_BROADCAST')]
            if bc in did and want != [1, 1]: s.err(f, ins.line, st, 'broadcast is enabled although it was not asked for or the socket is not a datagram one')
            if bc not in did and 0 not in want: s.err(f, ins.line, st, 'broadcast was asked for and not enabled')
        if s.sctp(f):
            sc = any(x.startswith('opt:%d:' % K['IPPROTO_SCTP']) for x in did); b = s.bit(st, 'U_NET_OPT_SCTP_ONE_TO_MANY')
            if sc and b != 1: s.err(f, ins.line, st, 'SCTP events are enabled although they were not asked for')
            if not sc and b != 0: s.err(f, ins.line, st, 'SCTP events were asked for and not enabled')

    def evs(s, f): return {EV.get(f.mod_prog.calleename(i)) for i in f.calls()}
    def worker(s, f): return 'socket' in s.evs(f)
    def passive(s, f): return 'bind' in s.evs(f)
    def active(s, f): return 'connect' in s.evs(f)
    def sctp(s, f): return any(EV.get(f.mod_prog.calleename(i)) == 'opt' and i.a[1] == ('c', s.K['IPPROTO_SCTP']) for i in f.calls())

def strip(f, v):
    while v[0] == '%':
        d = f.defs.get(v[1])
        if d is None or d.op not in ('zext', 'sext', 'trunc', 'bitcast'): return d
        v = d.a[0]
    return None

def leaf(f, v, seen=()):
    """constants K such that v depends on (x & K)"""
    out = set()
    if v[0] != '%' or v in seen: return out
    d = f.defs.get(v[1])
    if d is None: return out
    if d.op == 'and' and d.a[1][0] == 'c': return {d.a[1][1]}
    if d.op == 'phi':
        for x, l in d.a:
            out |= leaf(f, x, seen + (v,))
        # the branch that decides between the incoming values
        for b in d.blk.preds:
            for q in [b] + b.preds:
                t = q.insts[-1]
                if t.op == 'br' and t.a: out |= leaf(f, t.a[0], seen + (v,))
        return out
    if d.op in ('select', 'icmp', 'zext', 'sext', 'trunc', 'xor', 'or'):
        for x in d.a: out |= leaf(f, x, seen + (v,))
    return out

def sctp_bits(r, p, fs, K):
    """every event member is derived from the option bit of the same name"""
    for f in fs:
        for c in f.calls():
            if EV.get(p.calleename(c)) != 'opt' or c.a[1] != ('c', K['IPPROTO_SCTP']): continue
            mem = members(f.mod, 'sctp_event_subscribe')
            byoff = {o: n for n, o in mem.items()}
            from checks.recursion import chain
            base = c.a[3]
            # which option names this build knows
            for i in f.insts():
                if i.op != 'store': continue
                ch = chain(f, i.a[1])
                if ch is None or ch[0] != base or ch[1] not in byoff: continue
                n = byoff[ch[1]]; opt = 'U_NET_OPT_' + n.upper()
                try: k = consts([opt], INCS)[opt]
                except AnalysisError: continue
                got = leaf(f, i.a[0]); r.count('event_bits')
                if k not in got or len(got) > 1:
                    r.add(f.file, i.line, f.name, 'socket', 'notification %s is not controlled by %s alone' % (n, opt))

def dispatch(r, p, K, h):
    """u_net_sd_by_addr_ex: workers get the members of the address they are called for, by mode"""
    f = p.functions.get('u_net_sd_by_addr_ex')
    if f is None: raise AnalysisError('u_net_sd_by_addr_ex is gone')
    am = members(f.mod, 'u_net_addr_s'); ai = members(f.mod, 'u_addrinfo_s') or members(f.mod, 'addrinfo')
    if 'mode' not in am or 'ai_addr' not in ai: raise AnalysisError('members of the address were renamed')
    class D(Net):
        def on_loaded(s, e, f, ins, st, p, v):
            b, o = (p[1], p[2]) if p[0] == 'p' else (p, 0)
            if f.name == 'u_net_sd_by_addr_ex':
                s.drop(st, lambda m: m[1] == 'ld' and m[2] == v); s.put(st, 'ld', v, b, o)
        def on_taken(s, e, f, term, st, c, b): pass
        def on_call(s, e, f, ins, st, name, args):
            g = p.fn(name) if name else None
            if f.name != 'u_net_sd_by_addr_ex' or g is None or g.file != f.file or not s.worker(g): return None
            s.n('worker_calls')
            x = e.fact(st, ('m', ('a', 0), am['mode']))
            want = K['U_NET_SSOCK'] if s.passive(g) else K['U_NET_CSOCK']
            if not (x[0] == x[1] == want): s.err(f, ins.line, st, 'an address of the other mode gets %s' % ('a passive socket' if s.passive(g) else 'an active socket'))
            def at(v, name, off, base=None):
                return any(m[2] == v and m[4] == off and (base is None or m[3] == base) for m in s.marks(st, 'ld'))
            bases = [m[3] for m in s.marks(st, 'ld') if m[2] == args[0] and m[4] == ai['ai_addr']]
            ok = False
            for b in bases:
                if at(args[1], 'len', ai['ai_addrlen'], b) and at(args[2], 'fam', ai['ai_family'], b) and at(args[4], 'proto', ai['ai_protocol'], b) and \
                   (at(args[3], 'type', ai['ai_socktype'], b) or args[3] == ('c', K['SOCK_SEQPACKET']) or args[3][0] == 's'): ok = True
            if not ok: s.err(f, ins.line, st, 'the socket is not created from the members of one resolved address')
            if not at(args[5], 'opts', am['opts'], ('a', 0)) and args[5] != ('m', ('a', 0), am['opts']): s.err(f, ins.line, st, 'the options of the address are not passed on')
            return None
        def after_call(s, e, f, ins, st, name, args, targets): pass
        def on_exit(s, *a): pass
    d = D(K); e = engine.Engine(p, models.MODELS, [d]); e.only([f]); e.run(1)
    for f, line, msg, path in d.bad.values(): r.add(f.file, line, f.name, 'socket', msg, path)
    r.count('worker_calls', d.cnt.get('worker_calls', 0))

def c28(pid, tier):
    r = Result('Static helpers are expanded by the compiler; then, for every path of every socket-creating function of net.c: call-order typestate socket < options < bind < listen / connect on that socket; at every return of the descriptor all steps started have succeeded, and listen, address reuse, connect, broadcast and SCTP events were done exactly when socket type, family and option bits on that path ask for them. '
               'The thin wrappers pass their arguments to, and return the result of, the call they wrap; address members reach the worker of the right mode; O_NONBLOCK is changed alone and undone by the timed connect; each SCTP event depends on the option bit of its name.')
    K = consts(NAMES, INCS)
    p = compile_all(inline=True)
    fs = [f for f in p.allfns if os.path.basename(f.file) == 'net.c']
    for f in p.allfns: f.mod_prog = p
    h = Net(K)
    roots = [f for f in fs if any(p.calleename(i) in EV or p.calleename(i) in ('fcntl', 'accept', 'getsockopt', 'u_net_set_nonblocking') for i in f.calls())]
    e = engine.Engine(p, models.MODELS, [h]); e.only(roots); e.run(1)
    for f, line, msg, path in h.bad.values():
        if os.path.basename(f.file) == 'net.c': r.add(f.file, line, f.name, 'socket', msg, path)
    dispatch(r, p, K, h)
    sctp_bits(r, p, fs, K)
    r.cov.update(h.cnt)
    for k, n in (('descriptor_returns', 4), ('binds', 1), ('listens', 1), ('connects', 1), ('option_values', 2), ('wrapped_calls', 5), ('worker_calls', 2), ('flag_updates', 2)): r.need(k, n)
    return r
