#!/bin/bash
# check.sh <property> [quick|thorough]: rebuild from /repo's working tree, run the monitors
dir="$(cd "$(dirname "$0")" && pwd)"
"$dir/build.sh" || exit 2
export VERIF_DIR="$dir"
rm -f "$dir/replays/$1".running.*.json
ulimit -v 26000000
"$dir/target/debug/harness" check "$1" "${2:-$VERIF_TIER}"
rc=$?
# contracts that recurse or allocate without end take the process with them
case $rc in
132|134|135|136|138|139)
  f="$(ls "$dir/replays/$1".running.*.json 2>/dev/null | head -1)"
  if [ -n "$f" ]; then
    echo "$1: the contracts crashed the process (exit $rc) in one of: $(ls "$dir/replays/$1".running.*.json | tr '\n' ' ')"
    echo "VIOLATION property=$1 replay=$f"
    exit 1
  fi ;;
esac
exit $rc
