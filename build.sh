#!/bin/bash
# Builds the harness against /repo's current working tree, without writing to /repo.
# usage: build.sh OUTDIR [race] [sched]
#   OUTDIR/harness        the harness
#   OUTDIR/harness-race   (race) the same with the race detector
#   OUTDIR/harness-sched  (sched) the same over a copy of the code that runs under the controlled scheduler
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$1"; out=$(cd "$1" && pwd)
. /opt/vp/env.sh
export GOFLAGS=
overlay() { # FILE [JSON with more replacements]
  python3 - "$here" "$@" <<'P'
import json,sys,os
here,dst=sys.argv[1:3]
rep=json.load(open('/opt/vp/gomod/overlay.json'))["Replace"]
for d,to in (('harness','zz_verif_harness'),('sched','zz_verif_sched'),('sched/vsync','zz_verif_sched/vsync')):
    for f in sorted(os.listdir(os.path.join(here,d))):
        if f.endswith('.go'):
            rep['/repo/'+to+'/'+f]=os.path.join(here,d,f)
for f in sys.argv[3:]:
    rep.update(json.load(open(f)))
json.dump({"Replace":rep},open(dst,'w'))
P
}
cd /repo
overlay "$out/overlay.json" || exit 1
go build -overlay "$out/overlay.json" -o "$out/harness" ./zz_verif_harness || exit 1
for w in "${@:2}"; do
  case $w in
  race)
    CGO_ENABLED=1 go build -race -overlay "$out/overlay.json" -o "$out/harness-race" ./zz_verif_harness || echo "no race detector"
    ;;
  sched)
    GO111MODULE=off go build -o "$out/instr" "$here/tools/instr/main.go" &&
    "$out/instr" /repo "$out/instrumented" utils=1 circuitcompiler=2 zkSNARK=3 >"$out/instrumented.json" &&
    overlay "$out/overlay-sched.json" "$out/instrumented.json" &&
    go build -ldflags "-X github.com/mottla/go-AlgebraicProgram-SNARK/zz_verif_sched.Instrumented=yes" \
      -overlay "$out/overlay-sched.json" -o "$out/harness-sched" ./zz_verif_harness || echo "no controlled scheduler"
    ;;
  esac
done
exit 0
