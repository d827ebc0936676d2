#!/bin/bash
# try.sh ID [PROP...]: apply a seeded change to /repo, run its property's check (or the given ones), undo.
for spec in "$@"; do
  id=${spec%%:*}; props=${spec#*:}
  [ "$props" = "$spec" ] && props=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  for p in ${props//,/ }; do
    s=$(date +%s)
    out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash /verif/run.sh check $p 2>/tmp/try.err); rc=$?
    echo "$id $p rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep VIOLATION | head -1)"
    [ -n "${SHOW:-}" ] && echo "$out" | tail -5
  done
  git -C /repo checkout -q -- .
done
