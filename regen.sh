#!/bin/bash
# regen.sh REPO OUTDIR: translates autoload/vimlparser.vim with the generator
# of REPO in a scratch copy, and makes a package of the result
# (OUTDIR/extra, OUTDIR/pkg) which the monitors of P10 run beside the real one.
# OUTDIR/error says what failed if no Go parser came out.
repo=$1 out=$2 verif=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out/src" "$out/pkg" || exit 2
: >"$out/extra"
cp -a "$repo/autoload" "$repo/go" "$out/src/" || exit 2
cd "$out/src" || exit 2
rm -f go/vimlparser.go go/builtin_commands.go
run() {
	timeout 600 vim -u NONE -i NONE -N -es --cmd "let &rtp .= ',' . getcwd()" -S "$1" -c ":q!" </dev/null >"$out/log.$(basename "$1")" 2>&1
}
run go/generate.vim &
run go/gen_builtin_commands.vim &
wait
for f in vimlparser.go builtin_commands.go; do
	if [ ! -s "go/$f" ]; then
		{ echo "the generator wrote no $f"; cat "$out"/log.*; } >"$out/error"
		exit 0
	fi
	if ! gofmt "go/$f" >"$out/pkg/$f" 2>"$out/fmt"; then
		{ echo "$f is not Go:"; cat "$out/fmt"; } >"$out/error"
		exit 0
	fi
	gofmt "$repo/go/$f" | cmp -s - "$out/pkg/$f" && echo "$f" >>"$out/same"
done
# The hand-written files of the package: those of the repository, or frozen
# ones if those do not go with the translation (a declaration may have been
# moved by hand).
gate="$verif/harness/zz_regen.go=$verif/harness/data/regen/gate.txt"
try() {
	mkdir -p "$out/try" || exit 2
	rm -f "$out"/try/*.go
	cp "$out"/pkg/vimlparser.go "$out"/pkg/builtin_commands.go "$out/try/" || exit 2
	for f in "$@"; do
		n=$(basename "$f" .frozen)
		case $n in *_test.go | vimlparser.go | builtin_commands.go) ;; *) cp "$f" "$out/try/$n" ;; esac
	done
	rm -rf "$out/ov"
	(cd "$verif/harness" &&
		go run ./instr -repo "$repo" -out "$out/ov" -extra "$gate" -regen "$out/try" -target "$verif/harness/regen" &&
		go build -overlay "$out/ov/overlay.json" -o "$out/try.bin" .) 2>"$out/build"
}
if ! try "$repo"/go/*.go; then
	cp "$out/build" "$out/build.live"
	if ! try "$verif"/harness/data/regen/*.frozen; then
		{ echo "the translation does not compile:"; cat "$out/build.live" "$out/build"; } >"$out/error"
		exit 0
	fi
	echo frozen >"$out/helpers"
fi
cp "$out"/try/*.go "$out/pkg/"
echo "$gate" >"$out/extra"
exit 0
