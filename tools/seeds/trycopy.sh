#!/bin/bash
# trycopy.sh ID[:C01,C02...]...: as try.sh, but on scratch copies of /repo and of the harness, WORKERS
# at a time, so /repo is left alone. A bare patch file may be given as FILE.diff:C01.
W=${WORKERS:-2}
base=$(mktemp -d /tmp/trycopy.XXXXXX)
one() {
  spec=$1; slot=$2; d=$base/$slot
  if [ ! -d $d ]; then
    mkdir -p $d/verif; git clone -q /repo $d/repo; cp /repo/Cargo.lock $d/repo/ 2>/dev/null
    cp -a /verif/harness $d/verif/harness; cp -a /verif/corpus $d/verif/ 2>/dev/null
    cp -a /verif/known_findings.txt $d/verif/
  fi
  id=${spec%%:*}; props=${spec#*:}
  case $id in *.diff) patch=$id;; *) patch=/verif/seeded/$id/patch.diff;; esac
  [ "$props" = "$spec" ] && props=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C $d/repo checkout -q -- .
  git -C $d/repo apply $patch || { echo "$id: does not apply"; return; }
  cd $d/verif/harness || return
  cargo build --release --offline --bins --target-dir $d/verif/target >$d/build.log 2>&1 || { echo "$id: build fails"; return; }
  for p in ${props//,/ }; do
    s=$(date +%s)
    out=$(VERIF_ROOT=$d/verif VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick $d/verif/target/release/harness check $p 2>$d/err); rc=$?
    echo "$id $p rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep VIOLATION | head -1)"
    r=$(echo "$out" | sed -n 's/^VIOLATION.*replay=//p' | head -1)
    [ -n "${KEEP:-}" ] && [ -n "$r" ] && mkdir -p $KEEP/$p && cp $r $KEEP/$p/$(basename $id .diff).json
    [ -n "${SHOW:-}" ] && echo "$out" | tail -5
  done
}
i=0
for spec in "$@"; do echo "$spec"; done > $base/list
for w in $(seq 1 $W); do
  ( n=0; while read -r spec; do n=$((n+1)); [ $(( (n-1) % W + 1 )) = $w ] && one "$spec" $w; done < $base/list ) &
done
wait
rm -rf "$base"
