#!/bin/bash
# Apply every planted change to /repo in turn, run the check of its property
# (or the properties named by PROPS), undo it; tools/caught.json notes how the
# check of its own property ended.  usage: run_seeds.sh [id ...]
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  for q in ${PROPS:-$p}; do
    out=$(python3-vt -m pv.check $q 2>&1); rc=$?
    echo "$id $q rc=$rc $(echo "$out" | grep -c ^VIOLATION) $(echo "$out" | tail -3 | tr '\n' '|' | cut -c1-300)"
    [ "$q" = "$p" ] && python3 - "$id" "$rc" "$q" <<'P'
import json, os, sys
i, rc, q = sys.argv[1:]
f = 'tools/caught.json'
d = json.load(open(f)) if os.path.exists(f) else {}
if rc != '1':
    d[i] = 'missed'
else:
    r = json.load(open('evidence/replay/%s.json' % q))
    names = r.get('failed_obligations', [])
    names = [x for x in names if 'undecided' not in x] or names
    if not names and 'obligation' in r:
        names = [r['obligation']]
    d[i] = ('fails `%s`' % names[0][:120] if names else 'bounded stand-in') + \
        (', failing input found' if 'case' in r else '')
json.dump(d, open(f, 'w'), indent=1, sort_keys=True)
P
  done
  git -C /repo checkout -- .
done
