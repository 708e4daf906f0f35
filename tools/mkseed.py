#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=<shell text>, files={name: text})]."""
import sys, os, subprocess, json, shutil, tempfile
V = '/verif/seeded'
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns['SEEDS']:
    d = os.path.join(V, s['id'])
    t = tempfile.mkdtemp()
    a = []
    for f, old, new in s['edits']:
        src = open('/repo/' + f, encoding='latin1').read() if not os.path.exists(t + '/b/' + f) else open(t + '/b/' + f, encoding='latin1').read()
        assert src.count(old) == 1, (s['id'], f, src.count(old))
        for side, text in (('a', src), ('b', src.replace(old, new))):
            p = os.path.join(t, side, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if side == 'a' and os.path.exists(p):
                continue
            open(p, 'w', encoding='latin1').write(text)
    p = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=t, capture_output=True)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(p.stdout)
    assert subprocess.run(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff']).returncode == 0, s['id']
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n' + s['demo'].lstrip())
    os.chmod(d + '/demo.sh', 0o755)
    for n, text in s.get('files', {}).items():
        open(os.path.join(d, n), 'w').write(text)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(t)
    print(s['id'], len(p.stdout))
