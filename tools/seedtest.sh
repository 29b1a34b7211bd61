#!/bin/bash
# seedtest.sh [-n] ID...: (by hand) confirms planted bugs: demo passes on /repo, patch builds, tests pass, demo fails, and whether the check catches it (-n: skip the check)
nocheck=; [ "$1" = -n ] && { nocheck=1; shift; }
cd /repo; git diff --quiet || { echo "/repo dirty"; exit 1; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
for s in "$@"; do
  d=/verif/seeded/$s; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { echo "$s base build fails"; continue; }
  bash $d/demo.sh >/tmp/sd.log 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$s does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/sb.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/st.json >/dev/null 2>&1
  t=$(python3 - <<'P'
import json
base=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/st.json'))
def names(x):
    out=[]
    def w(v):
        if isinstance(v,dict):
            for k,q in v.items():
                if k in('passed','stable') and isinstance(q,list): out.extend([i if isinstance(i,str) else i.get('name') for i in q])
                else: w(q)
    w(x); return set(out)
b=names(base); p=names(r); print('tests:%d/%d'%(len(b&p),len(b)))
P
)
  bash $d/demo.sh >/tmp/sd2.log 2>&1; r1=$?
  v=skipped; if [ -z "$nocheck" ]; then st=$(date +%s); v=$(cd /verif; VC_REPO=/repo timeout 900 python3-vt check.py $p 2>&1 | grep -E "VIOLATION|UNDECIDED|$p:" | grep -E -m1 "VIOLATION" | cut -c1-150); v="${v:-MISSED} $(( $(date +%s)-st ))s"; fi
  git checkout -q -- .
  if [ -z "$nocheck" ]; then c=$(echo "$v" | sed -E 's/.*replay\/([A-Za-z0-9_]*)\.txt(.*)/\1\2/'); grep -v -P "^$s\t" /verif/tools/seed_results.txt > /tmp/sr.txt 2>/dev/null; printf '%s\t%s\n' "$s" "$c" >> /tmp/sr.txt; sort /tmp/sr.txt > /verif/tools/seed_results.txt; fi
  echo "$s [$p] demo0=$r0 build=$b $t demo1=$r1 check: $v"
done
