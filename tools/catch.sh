#!/bin/bash
# tools/catch.sh [-p PROP] [-d DIR] [ID ...]: applies each planted bug of DIR (default: seeded) to a scratch copy of /repo, runs the
# quick check of its property (or PROP) there. A private mount namespace puts the copies at /repo and /verif, so neither is touched.
D=/verif/seeded; P=
while getopts p:d: o; do case $o in p) P=$OPTARG;; d) D=$OPTARG;; *) exit 2;; esac; done
shift $((OPTIND-1))
NS=${NS:-/root/ns}
if [ -z "$CATCH_IN" ]; then
  mkdir -p $NS/bugs; rm -rf "$NS/repo"
  git clone -q /repo $NS/repo && cp /repo/Cargo.lock $NS/repo/ 2>/dev/null
  mkdir -p $NS/verif
  rsync -a --delete --exclude /target --exclude /.git --exclude /seeded --exclude /evidence --exclude /replays --exclude /work /verif/ $NS/verif/
  rsync -a --delete "$D/" $NS/bugs/
  CATCH_IN=1 exec unshare -m bash "$0" ${P:+-p $P} "$@"
fi
mount --bind $NS/repo /repo && mount --bind $NS/verif /verif || exit 2
cd /verif || exit 2
for d in $NS/bugs/*/; do
  id=$(basename "$d")
  [ $# -gt 0 ] && [[ " $* " != *" $id "* ]] && continue
  p=${P:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$SECONDS
  out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${TIER:-quick} timeout 900 python3 check.py "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $((SECONDS-s))s $(grep -m1 '^VIOLATION' <<<"$out")"
  if [ -n "$VERBOSE" ]; then grep -A3 '^  \[' <<<"$out" | head -6; elif [ $rc -ne 1 ]; then tail -5 <<<"$out"; fi
done
