#!/bin/bash
# reseed.sh [ID...] : run every planted bug's demonstration with and without its change (in copies)
cd "$(dirname "$0")/.."
[ $# = 0 ] && set -- $(ls seeded)
one() {
  id=$1; dir=$(mktemp -d /tmp/reseed-XXXXXX); chmod 755 "$dir"
  cp -a /repo "$dir/repo"; cp -a "/verif/seeded/$id" "$dir/demo"
  (cd "$dir/repo" && bash ../demo/demo.sh > "$dir/clean" 2>&1); clean=$?
  (cd "$dir/repo" && git apply "/verif/seeded/$id/patch.diff") || echo "$id does not apply"
  (cd "$dir/repo" && bash ../demo/demo.sh > "$dir/bug" 2>&1); bug=$?
  if [ $clean != 0 ] || [ $bug = 0 ]; then echo "$id BAD clean=$clean bug=$bug"; tail -3 "$dir/clean" "$dir/bug"; fi
  rm -rf "$dir"
}
export -f one
printf '%s\n' "$@" | xargs -P 4 -I{} bash -c 'one {}'
echo "$# demonstrations"
