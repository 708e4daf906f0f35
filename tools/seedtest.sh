#!/bin/bash
# seedtest.sh ID...: try planted bugs in a scratch copy of /repo, bound over /repo in a
# private mount namespace.  Prints: demo on the unchanged tree, demo and stable tests with
# the patch, and what the check of the property says.  SKIPTESTS=1 leaves the tests out.
one() {
  id=$1; s=/tmp/seedtest.$id; rm -rf "/tmp/seedtest.$id"; mkdir -p $s; cp -a /repo $s/repo; cp -a /verif/seeded/$id $s/seed
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  unshare -Urm bash -c "
    mount --bind $s/repo /repo; cd /repo
    git -C /repo checkout -q -- . 2>/dev/null
    bash /opt/vp/build.sh > $s/build0.log 2>&1
    timeout 300 bash $s/seed/demo.sh > $s/demo0.log 2>&1; d0=\$?
    git apply $s/seed/patch.diff || exit 9
    bash /opt/vp/build.sh > $s/build1.log 2>&1; b=\$?
    timeout 300 bash $s/seed/demo.sh > $s/demo1.log 2>&1; d1=\$?
    t=skipped
    if [ -z '$SKIPTESTS' ]; then bash /opt/vp/test.sh $s/res.json > $s/test.log 2>&1
      t=\$(python3 -c \"
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('$s/res.json'))['passed']
m=set(b)-set(r); print('pass' if not m else 'FAIL %d %s'%(len(m),sorted(m)[:3]))\"); fi
    for p in \${CHECKS:-$prop}; do
    MC_WORK=$s/work timeout 900 python3 /verif/checks/\$p.py > $s/check.\$p.log 2>&1; c=\$?
    echo \"$id: demo0=\$d0 build=\$b demo1=\$d1 tests=\$t check(\$p)=\$c \$(grep -c VIOLATION $s/check.\$p.log) violations\"
    done"
  rm -rf "/tmp/seedtest.$id/repo" "/tmp/seedtest.$id/work"
}
export -f one
printf '%s\n' "$@" | xargs -P ${PAR:-2} -I{} bash -c 'one {}'
