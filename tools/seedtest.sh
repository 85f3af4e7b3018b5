#!/bin/bash
# seedtest.sh ID...: confirm planted bugs in a scratch copy of /repo (build, stable tests, demo before and after)
for id in "$@"; do
  d=/verif/seeded/$id
  w=/tmp/seedtest_$id; rm -rf "$w"; mkdir -p "$w"
  bash -c "cd /repo && bash $d/demo.sh" >"$w/o1" 2>&1; a=$?
  git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/test.sh "$w/t.json" >"$w/t.log" 2>&1
  bash -c "cd /repo && bash $d/demo.sh" >"$w/o2" 2>&1; b=$?
  git -C /repo checkout -- .
  m=$(python3 - "$w/t.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open(sys.argv[1]))
print(' '.join(sorted(b-set(r['passed']))))
P
)
  echo "$id: demo unchanged=$a patched=$b missing-tests=[$m] :: $(tail -1 "$w/o2")"
done
bash /opt/vp/build.sh >/dev/null 2>&1
