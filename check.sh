#!/bin/bash
# check.sh PROPERTY TIER: builds the instrumented code of /repo and the
# monitors in a scratch directory and runs the check of one property.
cd "$(dirname "$0")" || exit 2
prop=$1 tier=${2:-${VERIF_TIER:-quick}} seed=${VERIF_SEED:-1}
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
repo=/repo
verif=$PWD
tmp=$(mktemp -d /tmp/vmon.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
fail() { echo "BUILD FAILED: $1"; exit 2; }
extra= regen=
if [ "$prop" = P10 ]; then
	bash "$verif/regen.sh" "$repo" "$tmp/regen" || fail "regeneration"
	extra=$(cat "$tmp/regen/extra")
	if [ -n "$extra" ]; then regen="$tmp/regen/pkg"; fi
	export VMON_REGEN="$tmp/regen"
fi
if [ "$prop" = P22 ]; then
	extra="$repo/go/zz_vmon.go=$verif/harness/data/p22/gocompile.txt,$verif/harness/zz_p22.go=$verif/harness/data/p22/gate.txt"
fi
if [ "$prop" = P25 ]; then
	bash "$verif/harness/data/p25/gate.sh" "$repo" >"$tmp/helpers.go"
	extra="$repo/go/zz_vmon.go=$tmp/helpers.go,$verif/harness/zz_p25.go=$verif/harness/data/p25/gate.txt"
fi
build() { # MODE OUT FLAGS
	(cd "$verif/harness" &&
		go run ./instr -repo "$repo" -mode "$1" -out "$tmp/ov-$1" -extra "$extra" -regen "$regen" -target "$verif/harness/regen" &&
		go build $3 -overlay "$tmp/ov-$1/overlay.json" -o "$2" .)
}
if [ "$prop" = P16 ]; then
	CGO_ENABLED=1 build race "$tmp/vmon" -race || fail "race build"
	export GORACE="halt_on_error=1 exitcode=66"
else
	build step "$tmp/vmon" || fail "build"
fi
if [ "$prop" = P18 ]; then
	(cd "$repo" && go build -o "$tmp/vimlparser" ./cmd/vimlparser) || fail "command"
fi
mkdir -p "$tmp/work" evidence
"$tmp/vmon" -prop "$prop" -tier "$tier" -seed "$seed" -evidence evidence -known known_findings.txt -repo "$repo" -tmp "$tmp/work"
