"""Running a check: violations, exceptions, known findings, evidence."""
import os, re, sys, time, json, importlib
from ir import AnalysisError

class Violation:
    def __init__(s, file, line, fn, cat, msg, path=()):
        s.file = file; s.line = line; s.fn = fn; s.cat = cat; s.msg = msg; s.path = list(path)
    def text(s):
        p = ' [path: %s]' % ' -> '.join(str(x) for x in s.path) if s.path else ''
        return '%s:%s: %s: %s: %s%s' % (s.file, s.line, s.fn, s.cat, s.msg, p)

class Result:
    def __init__(s, rule):
        s.rule = rule; s.viol = []; s.cov = {}; s.samples = []; s.assumptions = []; Result.last = s
    def add(s, file, line, fn, cat, msg, path=()):
        v = Violation(file, line, fn, cat, msg, path)
        if v.text() not in [x.text() for x in s.viol]: s.viol.append(v)
    def count(s, k, n=1): s.cov[k] = s.cov.get(k, 0) + n
    def sample(s, x):
        if len(s.samples) < 8: s.samples.append(x)
    def need(s, k, n):
        """anchor: the rule must have matched at least n instances"""
        if s.cov.get(k, 0) < n and not s.viol: raise AnalysisError('%s: %d found, at least %d expected - the rule no longer matches the code it was written for' % (k, s.cov.get(k, 0), n))

def findings(here, pid):
    """known_findings.txt: 'finding: property=<id> file=<f> match=<regex> :: what fails'"""
    out = []
    for ln in open(os.path.join(here, 'known_findings.txt')):
        m = re.match(r'finding:\s+property=(\S+)\s+file=(\S+)\s+match=(.*?)\s+::\s+(.*)$', ln.strip())
        if m and m.group(1) == pid: out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out

def main(pid, here):
    t0 = time.time()
    from checks import registry, exceptions
    fn = registry.CHECKS.get(pid)
    if fn is None: raise AnalysisError('no check for ' + pid)
    tier = os.environ.get('VERIF_TIER', 'quick'); tier = tier if tier in ('quick', 'thorough') else 'quick'
    r = fn(pid, tier)
    exc = [x for x in exceptions.TABLE if x[0] == pid]
    known = findings(here, pid)
    bad = []; shown = {}; used = {}
    for v in r.viol:
        e = [n for n, x in enumerate(exc) if x[1] == os.path.basename(v.file) and x[2] == v.cat and re.search(x[3], v.msg)]
        # an exception with a limit covers that many sites and no more
        if e: used.setdefault(e[0], []).append(v); continue
        k = [x for x in known if x[0] == os.path.basename(v.file) and x[1].search(v.cat + ': ' + v.msg)]
        if k: shown[k[0][2]] = v; continue
        bad.append(v)
    for n, vs in used.items():
        if len(exc[n]) > 5 and len(vs) > exc[n][5]: bad += vs
    for what in shown: print('KNOWN-FINDING: property=%s %s' % (pid, what))
    evd = os.environ.get('EVID') or os.path.join(here, 'evidence')
    os.makedirs(evd, exist_ok=True)
    rep = os.path.join(evd, pid + '.report.txt') if os.environ.get('EVID') else os.path.join('evidence', pid + '.report.txt')
    with open(os.path.join(here, rep), 'w') as fh:
        fh.write('property %s\nrule: %s\n' % (pid, r.rule))
        for v in bad: fh.write('VIOLATION ' + v.text() + '\n')
        for what, v in shown.items(): fh.write('KNOWN ' + v.text() + '\n')
    cov = dict(explanation='Static analysis of the LLVM IR (clang -O0 -g, mem2reg) or syntax of every file under /repo/srcs/toolbox. ' + r.rule)
    cov.update(r.cov)
    if r.samples: cov['samples'] = r.samples
    cov['exceptions_applied'] = ['%s %s /%s/: %s' % exc[n][1:5] for n in sorted(used)]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
              assumptions=r.assumptions, wall_s=round(time.time() - t0, 2), violations=len(bad))
    with open(os.path.join(evd, pid + '.json'), 'w') as fh: json.dump(ev, fh, indent=1); fh.write('\n')
    for v in bad[:20]: print(v.text())
    if bad:
        print('VIOLATION property=%s replay=%s' % (pid, os.path.join(here, rep)))
        return 1
    print('%s holds: %s' % (pid, ', '.join('%s=%s' % (k, v) for k, v in r.cov.items() if isinstance(v, int))))
    return 0
