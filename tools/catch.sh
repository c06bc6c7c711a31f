#!/bin/bash
# catch.sh ID... : run the checks against planted bugs (in copies), print what each check says
for id in "$@"; do
  dir=$(mktemp -d /tmp/catch-XXXXXX); chmod 755 "$dir"
  cp -a /repo "$dir/repo"
  (cd "$dir/repo" && git apply "/verif/seeded/$id/patch.diff") || echo "$id does not apply"
  prop=$(python3 -c "import json,sys; print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  out=$(cd /verif && VERIF_REPO="$dir/repo" bin/check "$prop" 2>&1); code=$?
  echo "$id $prop exit=$code $(echo "$out" | head -1 | cut -c1-200)"
  rm -rf "$dir"
done
