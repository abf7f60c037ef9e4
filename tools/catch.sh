#!/bin/bash
# Runs each planted bug's check against it, in scratch copies of /repo and of these checks:
# catch.sh [ID...]; results in tools/results.json. SLOT=n runs several side by side.
v=$(cd "$(dirname "$0")/.." && pwd); cd "$v" || exit 1
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(cd seeded && ls -d */ | tr -d /))
w=/tmp/catch${SLOT:-0}; mkdir -p "$w"
rsync -a --delete --exclude target /repo/ "$w/repo/"
rsync -a --delete --exclude target --exclude seeded --exclude .git --exclude evidence "$v/" "$w/verif/"
mkdir -p "$w/verif/evidence"
sed -i "s#\"/repo/#\"$w/repo/#" "$w"/verif/harness/Cargo.toml "$w"/verif/ct/Cargo.toml "$w"/verif/ct/ops/Cargo.toml "$w"/verif/harness/src/bin/standalone.rs
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C "$w/repo" checkout -q -- .
  git -C "$w/repo" apply "$v/seeded/$id/patch.diff" || { echo "$id APPLY-FAILED"; continue; }
  s=$SECONDS
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 "$w/verif/check.sh" ${CHECK:-$p} > "$w/out" 2>&1; rc=$?
  git -C "$w/repo" checkout -q -- .
  l=$(grep -m1 "^VIOLATION property=$p" "$w/out")
  if [ $rc = 1 ] && [ -n "$l" ]; then o=caught; echo "$id CAUGHT by $p $((SECONDS-s))s $(grep -m1 failed: "$w/out" | cut -c1-150)"
  else o=missed; echo "$id MISSED by ${CHECK:-$p} rc=$rc $((SECONDS-s))s"; tail -5 "$w/out"; fi
  flock tools/results.json python3 - "$id" "$p" "$o" <<'P'
import json, sys
f = 'tools/results.json'; d = json.load(open(f)); i, p, o = sys.argv[1:]
was = d.get(i, '')
d[i] = f'{o} by {p}' + (' after the check was strengthened' if o == 'caught' and ('missed' in was or 'strengthened' in was) else '')
json.dump(d, open(f, 'w'), indent=1, sort_keys=True)
P
done | tee -a /tmp/catch${SLOT:-0}.log
