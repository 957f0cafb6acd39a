"""Properties decided by the path-sensitive engine."""
import os
from ir import compile_all, AnalysisError
import engine, models
from checks.framework import Result

def run_engine(hooks=(), mods=None, relational=False):
    p = compile_all()
    e = engine.Engine(p, mods or models.MODELS, hooks, relational)
    e.run()
    if len(e.summ) < 300: raise AnalysisError('only %d functions analysed' % len(e.summ))
    return p, e

def cover(r, p, e):
    lib = [f for f in p.allfns if not f.file.endswith('/test.c')]
    r.cov.update(functions=len(p.allfns), states=e.total['states'], calls_applied=e.total['calls'], paths_ended=e.total['exits'], loads=e.total['loads'], stores=e.total['stores'])
    r.cov['functions_with_merged_paths'] = len(e.allcapped)
    r.cov['reports_withheld_as_imprecise'] = sum(len(v) for v in e.soft.values())
    r.assumptions += ['paths are enumerated with bounded unrolling of loops (widened counters) and at most %d states per block before states are merged; after a merge a report needs a path whose decisions do not depend on what was merged' % engine.CAP,
                      'platform functions behave as modelled in sa/models.py']

def collect(r, e, cats, keep=lambda v: True):
    for k, vs in e.viol.items():
        for v in vs:
            if v['cat'] in cats and keep(v): r.add(v['file'], v['line'], v['fn'], v['cat'], v['msg'], v['path'])

def c01(pid, tier):
    r = Result('Ownership typestate: each acquired resource (heap, stream, descriptor, pipe, mapping, address list, library object holding them) is followed over every path, through callee summaries; at each exit it must have been released, returned, stored in an object the caller keeps or handed to a callee that keeps it.')
    p, e = run_engine(); cover(r, p, e); collect(r, e, ('leak',))
    r.cov['acquisition_sites'] = sum(1 for f in p.allfns for i in f.calls() if getattr(models.MODELS.get(p.calleename(i)), 'acquires', False) or any(o.news for g in e.targets(i) if g.key in e.summ for o in e.summ[g.key].outcomes) or p.calleename(i) in ('u_malloc', 'u_zalloc', 'u_calloc', 'fopen', 'open', 'socket', 'accept', 'mmap', 'popen', 'getaddrinfo', 'fdopen', 'dup'))
    r.need('acquisition_sites', 80); return r

def c02(pid, tier):
    r = Result('Ownership typestate: after a release (direct or through a callee) the resource is dead on that path; reading or writing through it, releasing it again, passing it to a callee that uses it or leaving it in an object that stays alive is reported; so is releasing a resource through the wrong family or releasing a local or static object.')
    p, e = run_engine(); cover(r, p, e); collect(r, e, ('uaf', 'kind'))
    r.cov['release_sites'] = sum(1 for f in p.allfns for i in f.calls() if p.calleename(i) in ('u_free', 'free', 'fclose', 'close', 'munmap', 'freeaddrinfo', 'pclose') or any(o.frees for g in e.targets(i) if g.key in e.summ for o in e.summ[g.key].outcomes))
    r.need('release_sites', 150); return r

def c05(pid, tier):
    r = Result('Null-argument typestate: an argument compared with NULL may be NULL on the rejecting side; a dereference of it on such a path (here or in a callee) is reported, and so is a dereference that comes before the check on the same path.')
    p, e = run_engine(); cover(r, p, e); collect(r, e, ('nullarg', 'latecheck'))
    n = 0
    for f in p.allfns:
        for b in f.blocks.values():
            for i in b.insts:
                if i.op == 'icmp' and any(v[0] == 'c' and v[1] == 0 or v == ('null',) for v in i.a if isinstance(v, tuple)) and any(isinstance(v, tuple) and v[0] == '%' and v[1] in [q[1] for q in f.params] for v in i.a): n += 1
    r.cov['null_checks_on_arguments'] = n; r.need('null_checks_on_arguments', 200); return r

def c23(pid, tier):
    r = Result('Initialisation typestate: a local, a local buffer or a field of a freshly allocated block holds no value until a path stores one; using it in a computation, a branch, an address or a call before that is reported, including variables that only a succeeding callee sets.')
    p, e = run_engine(); cover(r, p, e); collect(r, e, ('uninit',))
    r.cov['tracked_locals'] = sum(1 for f in p.allfns for i in f.insts() if i.op == 'alloca'); r.need('tracked_locals', 120); return r

def fails(r, kinds, cats):
    from checks import failhook
    h = failhook.FailHook(kinds)
    from checks import iomodel
    p, e = run_engine([h], iomodel.build() if 'io' in kinds else None); cover(r, p, e)
    for f, kind, name, line, path in failhook.verdicts(e, h):
        r.add(f.file, line, f.name, kind, '%s fails here but the function goes on to report success' % name, path)
    for k, v in sorted(h.sites.items()): r.cov['fallible_%s_sites' % k] = len(v)
    return p, e, h

def c03(pid, tier):
    r = Result('Allocation-failure dataflow: every allocation and every call of a library function that can return NULL or fail is forked into a refused branch; on it no dereference of the missing block, no use of it by a callee, and no exit that reports success.')
    p, e, h = fails(r, ('mem',), ())
    collect(r, e, ('null',), lambda v: any('fails at line' in str(x) for x in v['path']))
    collect(r, e, ('nullcall',))
    r.need('fallible_mem_sites', 30); return r

def c06(pid, tier):
    r = Result('Failure propagation dataflow: every library function that reports failure through its result is a fallible step; the failing outcome of its summary marks the path, and a marked path may not leave the caller with its success value.')
    p, e, h = fails(r, ('step',), ())
    r.need('fallible_step_sites', 300); return r

def c08(pid, tier):
    r = Result('I/O failure dataflow: every open, read, write, close of a written stream, rename, link, unlink, stat, truncate and mapping is forked into a failed (or short) branch; on it no exit may report success, unless the operation is attempted again or, for stream reads, ferror is consulted. A source file is removed only on paths on which its copy or link succeeded.')
    p, e, h = fails(r, ('io',), ())
    for k, (fl, ln, fn, path) in sorted(h.bad.items()): r.add(fl, ln, fn, 'removal', 'the source is removed although nothing that was attempted with it is known to have succeeded', path)
    r.cov.update({k.replace(' ', '_'): v for k, v in h.cnt.items()})
    r.need('fallible_io_sites', 20); r.need('removals_after_a_copy', 1); return r
