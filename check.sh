#!/bin/bash
# check.sh <ID> quick|thorough        run the check of a property
# check.sh <ID> replay <file>         run one recorded case again
here=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=${2:-quick}
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-$id-XXXXXX") || exit 3
trap 'rm -rf "$work"' EXIT
more=; case $id in C09|C17) more="race sched";; C25) more=race;; esac
if ! "$here/build.sh" "$work" $more >"$work/build.log" 2>&1; then
  cat "$work/build.log"; echo "the harness does not build against /repo"; exit 3
fi
cd "$work"
bin=$work/harness
case $id in C09|C17) [ -x "$bin-sched" ] && bin=$bin-sched;; esac
if [ "$tier" = replay ]; then "$bin" replay "$3"; exit $?; fi
"$bin" run -id "$id" -tier "$tier" -verif "$here" -work "$work" -tree "$(git -C /repo rev-parse --short HEAD 2>/dev/null)" ${SECS:+-secs $SECS}
exit $?
