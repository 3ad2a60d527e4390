#!/bin/bash
# check.sh ID TIER        run one property's check
# check.sh --build ID...  build harnesses only (all when none is given)
# check.sh --replay FILE  re-run a saved counterexample
cd "$(dirname "$0")" || exit 3
V=$PWD; REPO=${VERIF_REPO:-/repo}; B=${VERIF_BUILD:-$V/build}; mkdir -p "$B" "$V/evidence" "$V/replays"
export PBT_TMP=${PBT_TMP:-$B/tmp}; mkdir -p "$PBT_TMP"
CXX=clang++
FLAGS="-std=c++14 -O1 -gline-tables-only -w -D_GLIBCXX_ASSERTIONS -I$V/lib -I$REPO -fno-omit-frame-pointer"
SAN="-fsanitize=address,undefined -fno-sanitize=alignment,signed-integer-overflow,vptr,function,nonnull-attribute,pointer-overflow -fno-sanitize-recover=all"
build() { # id suffix extra-flags -> prints the binary
  local id=$1 sfx=$2; shift 2
  local src=$V/props/$id.cpp
  local SAN=$SAN; grep -q '^// sanitizer: thread' "$src" && SAN="-fsanitize=thread -DPBT_TSAN"
  local h; h=$(cat "$REPO/strtk.hpp" "$src" "$V"/lib/*.hpp "$V/check.sh" | sha256sum | cut -c1-20)
  local bin=$B/$id$sfx-$h
  ( flock 9
    if [ ! -x "$bin" ]; then
      find "$B" -maxdepth 1 -type f -name "$id$sfx-*" -delete
      if ! $CXX $FLAGS $SAN "$@" "$src" -o "$bin.part" -lboost_regex >"$B/$id$sfx.log" 2>&1; then
        echo "check.sh: cannot build $id against $REPO" >&2; head -c 4000 "$B/$id$sfx.log" >&2; exit 3
      fi
      mv "$bin.part" "$bin"
    fi ) 9>"$B/.lock-$id$sfx" || return 3
  echo "$bin"
}
ids() { (cd "$V/props" && ls *.cpp | sed 's/\.cpp$//'); }
case "$1" in
--build) shift; export -f build 2>/dev/null
  L=("$@"); [ ${#L[@]} -gt 0 ] || L=($(ids)); rc=0
  running=0; pids=()
  for i in "${L[@]}"; do build "$i" "" >/dev/null & pids+=($!); while [ "$(jobs -rp | wc -l)" -ge "$(nproc)" ]; do wait -n; done; done
  for p in "${pids[@]}"; do wait "$p" || rc=1; done
  exit $rc;;
--replay) f=$2; id=$(sed -n 's/^property //p' "$f"); bin=$(build "$id" "") || exit 3; PBT_TMP=$(mktemp -d "$PBT_TMP/run.XXXXXX"); trap 'find "$PBT_TMP" -delete' EXIT; "$bin" --replay "$f"; exit $?;;
esac
PBT_TMP=$(mktemp -d "$PBT_TMP/run.XXXXXX") || exit 3; trap 'find "$PBT_TMP" -delete' EXIT
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; SEED=${VERIF_SEED:-1}; shift; shift || true
bin=$(build "$ID" "") || exit 3
if [ "$TIER" = thorough ]; then
  "$bin" --tier thorough --seed "$SEED" --mult "${VERIF_MULT:-250}" --cap 1500 --evidence "$V/evidence/$ID.json" --replays "$V/replays" "$@"; rc=$?
  [ $rc -eq 0 ] || exit $rc
  fz=$(build "$ID" ".fuzz" -DPBT_FUZZ -fsanitize=fuzzer) || exit 3
  D=$(mktemp -d "$PBT_TMP/fuzz.XXXXXX"); 
  ( cd "$D" && mkdir c && "$fz" -seed="$SEED" -max_len=512 -len_control=20 -max_total_time="${VERIF_FUZZ_TIME:-240}" -timeout=60 -rss_limit_mb=3500 -fork=6 -ignore_timeouts=1 -ignore_ooms=0 -ignore_crashes=0 -artifact_prefix="$D/" c >log 2>&1 )
  runs=$(sed -n 's/^#\([0-9]*\): cov.*/\1/p' "$D/log" | tail -1); cov=$(sed -n 's/^#[0-9]*: cov: \([0-9]*\).*/\1/p' "$D/log" | tail -1)
  echo "libFuzzer: ${runs:-0} runs, ${cov:-?} edges"
  for a in "$D"/crash-* "$D"/oom-*; do [ -f "$a" ] || continue; "$bin" --bytes "$a" --replays "$V/replays" || rc=1; done
  python3 - "$V/evidence/$ID.json" "${runs:-0}" "${cov:-0}" $rc <<'P'
import json,sys
p=sys.argv[1]; e=json.load(open(p)); e["coverage"]["coverage_guided_runs"]=int(sys.argv[2]); e["coverage"]["coverage_guided_edges"]=int(sys.argv[3])
if int(sys.argv[4]): e["violations"]=1
json.dump(e,open(p,"w"),indent=1)
P
  find "$D" -delete
  exit $rc
fi
"$bin" --tier quick --seed "$SEED" --mult "${VERIF_MULT:-30}" --evidence "$V/evidence/$ID.json" --replays "$V/replays" "$@"
