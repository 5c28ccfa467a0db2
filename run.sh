#!/bin/bash
# run.sh ID: builds what the check needs from /repo's working tree, then runs it
V=$(cd "$(dirname "$(realpath "${BASH_SOURCE[0]}")")" && pwd)
cd "$V" || exit 3
ID=$1; shift
T=${MON_TARGET:-$V/target}
EV=${MON_EVIDENCE:-$V/evidence}
ARGS=(check "$ID" --seed "${VERIF_SEED:-1}")
[ "${VERIF_TIER:-quick}" = thorough ] && ARGS+=(--thorough)
WHAT=(mon); BIN=$T/release/mon
case $ID in
  P21) WHAT=(clients); BIN=$T/release/clients ;;
  P22) WHAT=(clients js); BIN=$T/release/clients; ARGS+=(--js "$T/js") ;;
  P30) WHAT=(lib); BIN=$T/release/announced ;;
  P23) WHAT=(mon asan) ;;
  P28) WHAT=(cov); BIN=$T/cov/release/mon ;;
esac
exec 9>"$V/.build.lock"; flock 9
"$V/build.sh" "${WHAT[@]}" || exit 3
exec 9>&-
[ "$ID" = P23 ] || exec "$BIN" "${ARGS[@]}" --evidence "$EV" "$@"

# P23: the guarded-buffer build, then the AddressSanitizer build on exactly allocated accounts
"$BIN" "${ARGS[@]}" --evidence "$EV" "$@" || exit $?
W=$(mktemp -d)
export ASAN_OPTIONS=detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1
"$T/asan/x86_64-unknown-linux-gnu/release/mon" "${ARGS[@]}" --tight --evidence "$W" "$@" >"$W/out" 2>"$W/err"
RC=$?
if grep -q 'ERROR: AddressSanitizer' "$W/err"; then
  mkdir -p "$EV/replays"
  R=$EV/replays/P23-asan-${VERIF_SEED:-1}.txt
  { echo "again: VERIF_SEED=${VERIF_SEED:-1} ./run.sh P23 (AddressSanitizer build)"; head -c 20000 "$W/err"; } >"$R"
  grep -m1 'ERROR: AddressSanitizer' "$W/err"
  echo "VIOLATION property=P23 replay=$R"
  RC=1
else
  sed "s#$W/#$EV/#" "$W/out"
  if [ $RC = 1 ]; then mkdir -p "$EV/replays"; cp "$W"/replays/* "$EV/replays/" 2>/dev/null; fi
fi
python3 - "$EV/P23.json" "$W/P23.json" $RC <<'P'
import json, sys
a = json.load(open(sys.argv[1]))
try:
    b = json.load(open(sys.argv[2]))
except Exception:
    b = {"coverage": {}, "wall_s": 0}
c = a["coverage"]
c["address_sanitizer_run"] = b["coverage"]
c["evaluations"] += b["coverage"].get("evaluations", 0)
a["wall_s"] += b.get("wall_s", 0)
if sys.argv[3] == "1":
    a["violations"] = 1
json.dump(a, open(sys.argv[1], "w"), indent=2)
P
rm -rf "${W:?}"
exit $RC
