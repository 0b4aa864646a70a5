#!/bin/bash
# try_bug.sh ID [-t] [CHECK...]: applies seeded/ID to a scratch copy of /repo
# (/tmp/bt), with -t runs the stable tests and the demonstration there, then the
# given checks (default: the bug's own property) against the copy.
id=$1; shift
B=/tmp/bt${SLOT:-}
mkdir -p "$B"
rsync -rlc --delete --exclude _build --exclude .git /repo/ "$B/repo/"
cd "$B/repo" || exit 1
patch -p1 -s --dry-run < /verif/seeded/$id/patch.diff >/dev/null || { echo "$id: PATCH FAILS"; exit 1; }
if [ "$1" = -t ]; then
  shift
  (cd /repo && bash /verif/seeded/$id/demo.sh > "$B/demo0.log" 2>&1); d0=$?
fi
patch -p1 -s < /verif/seeded/$id/patch.diff
if [ -n "$d0" ]; then
  cmake -S "$B/repo" -B "$B/cm" -G Ninja -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_PROJECT_fbstab_INCLUDE=/opt/vp/cmake/offline.cmake > "$B/cm.log" 2>&1
  ninja -C "$B/cm" >> "$B/cm.log" 2>&1; nb=$?
  ctest --test-dir "$B/cm" -j8 --timeout 120 > "$B/ct.log" 2>&1; ct=$?
  bash /verif/seeded/$id/demo.sh > "$B/demo1.log" 2>&1; d1=$?
  echo "$id: build=$nb tests=$ct demo_clean=$d0 demo_bug=$d1 $(grep -c Passed $B/ct.log) passed"
  tail -2 "$B/demo1.log"
fi
checks=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
[ "$checks" = none ] && exit 0
for c in $checks; do
  VF_REPO=$B/repo VF_BUILD=$B/build timeout 900 python3 /verif/check.py $c > "$B/check.log" 2>&1; rc=$?
  echo "$id: $c rc=$rc $(grep -m1 VIOLATION $B/check.log) $(tail -1 $B/check.log)"
done
