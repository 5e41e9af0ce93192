#!/bin/bash
# check.sh <property> | replay <file> | selftest [n]
cd "$(dirname "$0")" || exit 2
log=$(mktemp) || exit 2
if ! bash build.sh >"$log" 2>&1; then
  cat "$log" >&2; rm -f "$log"
  echo "check.sh: the library or the simulator does not build" >&2
  exit 2
fi
rm -f "$log"
case "$1" in
  replay|selftest) exec sim/target/release/vsim "$@" ;;
  *) exec sim/target/release/vsim check "$1" ;;
esac
