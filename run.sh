#!/bin/bash
# Usage: run.sh <property id> <quick|thorough> | run.sh replay <file> | run.sh build
# Builds the explorer from /repo's working tree (overlay: nothing is written to /repo) and runs one check.
set -u
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
R="${VERIF_REPO:-/repo}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
B="$V/build"
mkdir -p "$B" || exit 3
TMP="$(mktemp -d)" || exit 3
trap 'rm -rf "${TMP:?}"' EXIT
{
  printf '{"Replace":{'
  sep=''
  for f in "$V"/mc/*.go; do
    printf '%s"%s/internal/verifmc/%s":"%s"' "$sep" "$R" "$(basename "$f")" "$f"
    sep=','
  done
  printf ',"%s/internal/verifsched/verifsched.go":"%s"' "$R" "$V/mc/sched/verifsched.go"
  printf '}}\n'
} > "$TMP/overlay.json"
cp "$R/go.mod" "$TMP/go.mod" && cp "$R/go.sum" "$TMP/go.sum" || exit 3
build() { # output, extra flags...
  local out="$1"; shift
  (cd "$R" && go build -modfile="$TMP/go.mod" -overlay "$TMP/overlay.json" "$@" -o "$out" ./internal/verifmc)
}
BIN="$TMP/verifmc"
build "$BIN" || { echo "run.sh: build failed" >&2; exit 3; }
export VERIF_REPO="$R" VERIF_DIR="$V"
case "${1:-}" in
  build) exit 0;;
  replay) ID="$(sed -n 's/.*"[Pp]roperty": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)";;
  list|one) ID="$2";;
  *) ID="$1";;
esac
if [ "$ID" = C18 ]; then
  # race-enabled binary of the plain library (needs cgo; left out, and said so in the evidence, where it cannot be built)
  if CGO_ENABLED=1 build "$TMP/verifmc-race" -race >"$TMP/race.log" 2>&1; then export VERIF_RACE_BIN="$TMP/verifmc-race"; fi
  # the explorer itself runs on the instrumented library
  mkdir "$TMP/src" && "$BIN" instrument "$R" "$TMP/src" "$TMP/overlay.json" && build "$TMP/verifmc-sched" || { echo "run.sh: instrumented build failed" >&2; exit 3; }
  BIN="$TMP/verifmc-sched"
fi
if [ "$ID" = C11 ]; then
  # the library with its loops over maps under the explorer's control; without it (said so in the evidence) they are left to chance
  cp "$TMP/overlay.json" "$TMP/maps.json"
  if mkdir "$TMP/maps" && "$BIN" instrument "$R" "$TMP/maps" "$TMP/maps.json" maps && (cd "$R" && go build -modfile="$TMP/go.mod" -overlay "$TMP/maps.json" -o "$TMP/verifmc-maps" ./internal/verifmc) 2>"$TMP/maps.log"; then
    BIN="$TMP/verifmc-maps"; export VERIF_MAPS=1
  else
    cat "$TMP/maps.log" >&2; echo "run.sh: map orders are not controlled" >&2
  fi
fi
if [ "$ID" = C19 ] || [ "$ID" = C22 ] || [ "$ID" = C25 ]; then
  (cd "$R/truecli" && cp go.mod "$TMP/cli.mod" && cp go.sum "$TMP/cli.sum" && sed -i "s#=> \.\./*\$#=> $R#" "$TMP/cli.mod" && go build -modfile="$TMP/cli.mod" -o "$TMP/truecli" .) || { echo "run.sh: truecli build failed" >&2; exit 3; }
  export VERIF_CLI_BIN="$TMP/truecli"
fi
small=''
case "$ID" in C01|C03|C04|C11|C12|C16) small=1;; esac
[ "${2:-quick}" = thorough ] && case "$ID" in C18|C19|C22|C25) ;; *) small=1;; esac
[ "$1" = replay ] && small="$(grep -c '"arch": *"386"' "$2")"
if [ "$small" = 1 ]; then
  # the same on 32 bits, where int is smaller than the lengths in font files; left out, and said so in the evidence, where such programs cannot be built or run
  if GOARCH=386 CGO_ENABLED=0 build "$TMP/verifmc-386" >"$TMP/386.log" 2>&1 && [ "$("$TMP/verifmc-386" helper alive 2>/dev/null)" = alive ]; then export VERIF_386_BIN="$TMP/verifmc-386"; fi
  [ "$1" = replay ] && [ -n "${VERIF_386_BIN:-}" ] && BIN="$VERIF_386_BIN"
fi
case "$1" in
  replay|list|one) "$BIN" "$@"; exit $?;;
esac
"$BIN" run "$ID" "${2:-quick}" "$V"
