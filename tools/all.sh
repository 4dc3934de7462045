#!/bin/bash
# developer convenience: run every registered quick check, one line per property
cd "$(dirname "$0")/.."
for p in ${@:-$(seq -f 'C%02g' 1 22)}; do
  t=$(date +%s); out=$(timeout 900 /opt/venv/bin/python check.py $p --tier quick 2>&1); r=$?
  echo "$p rc=$r $(( $(date +%s) - t ))s $(echo "$out" | grep -E 'VIOLATION|KNOWN' | head -3 | cut -c1-160 | tr '\n' '|') $(echo "$out" | tail -1 | cut -c1-200)"
done
/opt/venv/bin/python tools/proved.py
