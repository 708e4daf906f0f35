#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from props/*.py and props/header.md."""
import json, os, glob, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
for f in sorted(glob.glob(V + '/props/C*.py')):
    ns = {}
    exec(open(f).read(), ns)
    P.append(ns['P'])
with open(V + '/properties.jsonl', 'w') as o:
    for p in P:
        d = dict(id=p['id'], title=p['title'], statement=' '.join(p['statement'].split()),
                 quantifier=dict(over=p['over'], text=' '.join(p['quantifier'].split())),
                 why_tests_cant=' '.join(p['why'].split()),
                 anchors=dict(files=p['files'],
                              mechanism=[dict(name=a, where=b) for a, b in p['mechanism']],
                              observe_at=p.get('observe', []), hook_needed=p.get('hook')))
        assert len(d['title']) <= 80, d['title']
        o.write(json.dumps(d) + '\n')
checks, na = [], []
for p in P:
    if os.path.exists(V + '/checks/%s.py' % p['id']) and not p.get('unclaimed'):
        checks.append(dict(property=p['id'], quick_cmd='python3 checks/%s.py' % p['id'],
                           thorough_cmd='VERIF_TIER=thorough python3 checks/%s.py' % p['id'],
                           technique=p['technique'], level='model_checking', level_note=' '.join(p['note'].split())))
    else:
        na.append(dict(property=p['id'], reason=p.get('unclaimed') or 'no check was built for it in the time available'))
commits = [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True,
           text=True).stdout.splitlines() if 'model checking hook' in l]
m = dict(version=1, setup_cmd='python3 lib/build.py',
         hooks=dict(guard='GST_MODEL_CHECK', enable='lib/build.py compiles a copy of /repo with -DGST_MODEL_CHECK and links harness/*.c into the executable',
                    source_commits=commits[::-1]),
         checks=checks, not_applicable=na,
         notes='known-findings.txt lists the findings and the fixes; DESIGN.md is generated by tools/gen.py from props/.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
with open(V + '/DESIGN.md', 'w') as o:
    o.write(open(V + '/props/header.md').read())
    for p in P:
        o.write('\n## %s %s%s\n\n%s\n\n%s\n' % (p['id'], p['title'], '' if any(c['property'] == p['id'] for c in checks) else ' (not claimed)',
                                         'Property: ' + ' '.join(p['statement'].split()), p['design'].strip()))
    if os.path.exists(V + '/props/footer.md'):
        o.write('\n' + open(V + '/props/footer.md').read())
print(len(P), 'properties,', len(checks), 'checks')
