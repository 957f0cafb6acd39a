"""Syntax trees (clang -ast-dump=json) of the library's sources."""
import json, os, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import ir
from ir import AnalysisError

def load(path, inc):
    p = subprocess.run([ir.tool('clang'), '-g', '-O0', '-D_GNU_SOURCE', '-DHAVE_CONF_H', '-I' + ir.REPO + '/include', '-I' + inc + '/include', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', path], capture_output=True)
    if p.returncode: raise AnalysisError('clang: ' + p.stderr.decode()[-400:])
    return json.loads(p.stdout)

def trees(want=lambda text: True):
    """[(file, tree)] of the sources whose text satisfies `want`"""
    with tempfile.TemporaryDirectory() as tmp:
        ir.mkinc(tmp)
        fs = [f for f in ir.sources() if want(open(f, errors='replace').read())]
        with ThreadPoolExecutor(4) as ex: ts = list(ex.map(lambda f: load(f, tmp), fs))
    return list(zip([ir.relfile(f) for f in fs], ts))

def kids(n): return [x for x in n.get('inner', ()) if x]
def walk(n):
    yield n
    for x in kids(n): yield from walk(x)

def enums(tree):
    """{constant id: (enum id, name, value)}, {enum id: (enum name, [(name, value)])}"""
    C = {}; E = {}
    for n in walk(tree):
        if n.get('kind') != 'EnumDecl': continue
        v = -1; lst = []
        for c in kids(n):
            if c.get('kind') != 'EnumConstantDecl': continue
            e = next((x for x in walk(c) if x.get('kind') == 'ConstantExpr' and 'value' in x), None)
            v = int(e['value']) if e is not None else v + 1
            C[c['id']] = (n['id'], c['name'], v); lst.append((c['name'], v))
        E[n['id']] = (n.get('name', ''), lst)
    return C, E

def line(n, last=[0]):
    r = n.get('range', {}).get('begin', {})
    r = r.get('expansionLoc', r)
    return r.get('line', 0)

def functions(tree):
    """function definitions of the main file with their lines filled in"""
    cur = 0; out = []
    for n in kids(tree):
        if n.get('kind') == 'FunctionDecl' and any(x.get('kind') == 'CompoundStmt' for x in kids(n)): out.append(n)
    return out

def switches(fn):
    """[(switch node, [label nodes in source order as ('case', const ids/values) / ('default',)], arms)]
    an arm is (labels, statements up to the next label)"""
    out = []
    for n in walk(fn):
        if n.get('kind') != 'SwitchStmt': continue
        body = kids(n)[-1]; arms = []
        for s in (kids(body) if body.get('kind') == 'CompoundStmt' else [body]):
            labels = []; q = s
            while q.get('kind') in ('CaseStmt', 'DefaultStmt'):
                labels.append(q); q = kids(q)[-1] if kids(q) else None
                if q is None: break
            if labels: arms.append((labels, [q] if q is not None else []))
            elif arms: arms[-1][1].append(s)
        out.append((n, arms))
    return out
