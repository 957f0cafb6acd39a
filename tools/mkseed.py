#!/usr/bin/env python3
"""mkseed.py < spec : writes seeded/<id>/ from a spec (id:, property:, needs:, breaks: lines, then @@ FILE blocks with
<<<< old ==== new >>>> edits, then @@demo with C source).  Test it with tools/seedtest.sh <id>."""
import sys, os, re, json, subprocess, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
SH = '''#!/bin/bash
# exit 0: property kept; non-zero: broken.  Run in /repo after the build.
D=$(cd "$(dirname "$0")" && pwd)
W=/tmp/libu-demo-%(id)s
rm -rf /tmp/libu-demo-%(id)s
mkdir -p "$W"
gcc -g -w -D_GNU_SOURCE -DHAVE_CONF_H -I include -I _build/include "$D/demo.c" _build/srcs/libu.a -o "$W/demo" %(ld)s || { rm -rf /tmp/libu-demo-%(id)s; exit 99; }
cd "$W" && timeout 100 ./demo
r=$?
cd /
rm -rf /tmp/libu-demo-%(id)s
exit $r
'''
for spec in re.split(r'^#### *$', sys.stdin.read(), flags=re.M):
    if not spec.strip(): continue
    head, *parts = re.split(r'^@@ *', spec, flags=re.M)
    m = dict(l.split(': ', 1) for l in head.strip().split('\n'))
    d = os.path.join(H, 'seeded', m['id']); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mks-')
    diff = ''
    for p in parts:
        name, body = p.split('\n', 1); name = name.strip()
        if name == 'demo':
            open(os.path.join(d, 'demo.c'), 'w').write(body.strip('\n') + '\n'); continue
        src = open(os.path.join(REPO, name)).read(); new = src
        for a, b in re.findall(r'^<<<<\n(.*?)\n====\n(.*?)\n?>>>>$', body, flags=re.M | re.S):
            if new.count(a) != 1: sys.exit('%s: %d matches for: %s' % (m['id'], new.count(a), a))
            new = new.replace(a, b)
        for s, tx in (('a', src), ('b', new)):
            q = os.path.join(t, s, name); os.makedirs(os.path.dirname(q), exist_ok=True); open(q, 'w').write(tx)
        diff += subprocess.run(['diff', '-u', 'a/' + name, 'b/' + name], cwd=t, capture_output=True, text=True).stdout
    shutil.rmtree(t)
    diff = re.sub(r'^((?:---|\+\+\+) \S+)\t.*$', r'\1', diff, flags=re.M)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(SH % dict(id=m['id'], ld=m.get('ld', ''))); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=m['property'], needs=m['needs'], what_it_breaks=m['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print('wrote', m['id'])
