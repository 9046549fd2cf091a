#!/bin/bash
# check.sh ID [quick|thorough] [GROUP [INDEX]]: builds the monitors against /repo's working tree and runs one property.
# Exit 0 held on everything explored; 1 violation (with a VIOLATION line); 2 error/inconclusive.
id=${1:?usage: check.sh ID [tier] [group] [index]}
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
verif=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
work=$(mktemp -d /tmp/verif-$id-XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$verif/evidence"
evidence=$verif/evidence/$id.json
replay=$verif/evidence/$id.replay.json
rm -f "$evidence" "$replay"
cp -r "$verif/harness" "$work/harness" || exit 2
race=()
# properties whose oracle includes the race detector
case " ${VERIF_RACE_PROPS-C11 C16 C18 C23 C28} " in *" $id "*) race=(-race);; esac
( cd "$work/harness" && go build "${race[@]}" -o "$work/verif" . ) >"$work/build.log" 2>&1 || {
	cat "$work/build.log" >&2; echo "error: the monitors do not build against /repo" >&2; exit 2
}
args=(-property "$id" -tier "$tier" -seed "$seed" -evidence "$evidence" -replay "$replay" -known "$verif/KNOWN_FINDINGS.txt")
[ -n "$3" ] && args+=(-group "$3")
[ -n "$4" ] && args+=(-index "$4")
export GORACE="halt_on_error=0 exitcode=0 log_path=$work/race" GOTRACEBACK=all
"$work/verif" "${args[@]}" >"$work/out" 2>"$work/err"
rc=$?
cat "$work/out"
races=$(cat "$work"/race.* 2>/dev/null | grep -c 'WARNING: DATA RACE')
if [ "${races:-0}" -gt 0 ]; then
	{ echo "data races reported by the Go race detector: $races"; cat "$work"/race.*; } >"$verif/evidence/$id.race.txt"
	if ! grep -q '^VIOLATION ' "$work/out"; then
		echo "# $races data race reports"
		echo "VIOLATION property=$id replay=$verif/evidence/$id.race.txt"
	fi
	exit 1
fi
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
	# the process died (fatal runtime error such as stack exhaustion or concurrent map access): attribute it
	if grep -qE '^(fatal error:|panic:|runtime: goroutine stack exceeds)' "$work/err" && grep -q 'github.com/bantling/micro' "$work/err"; then
		head -c 200000 "$work/err" >"$verif/evidence/$id.crash.txt"
		[ -f "$evidence" ] || python3 - "$evidence" "$id" "$tier" "$seed" <<'P'
import json,sys
e,i,t,s=sys.argv[1:]
json.dump({"property":i,"tier":t,"seed":int(s),"level":"exploration","coverage":{"evaluations":1,"distinct_nontrivial":1,"rule":"the process crashed inside the code under test","samples":["see crash file"]},"wall_s":0,"violations":1},open(e,"w"))
P
		echo "# crash: $(grep -m1 -E '^(fatal error:|panic:|runtime: goroutine stack exceeds)' "$work/err")"
		echo "VIOLATION property=$id replay=$verif/evidence/$id.crash.txt"
		exit 1
	fi
	head -c 20000 "$work/err" >&2
	exit 2
fi
exit $rc
