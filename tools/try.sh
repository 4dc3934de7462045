#!/bin/bash
# try.sh ID... : apply a planted bug to /repo, run its check, undo
cd /verif
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || continue
  timeout 900 /opt/venv/bin/python check.py ${P:-$p} > /tmp/try.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$b $p exit $rc: $(grep -m2 VIOLATION /tmp/try.out | cut -c1-160 | tr '\n' ';') $(tail -1 /tmp/try.out | cut -c1-120)"
done
