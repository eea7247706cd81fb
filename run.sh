#!/bin/bash
# run.sh <ID> [quick|thorough]         run the check of one property
# run.sh <ID> replay <replay file>     run the saved failing case again
# exit 0: held; 1: VIOLATION; 2: build error, timeout or resource problem
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; MODE="${2:-${VERIF_TIER:-quick}}"
lc="$(echo "$ID" | tr 'A-Z' 'a-z')"
export HOME="${HOME:-/root}"
export PATH="/opt/vp/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off GONOSUMDB='*'
export GOPATH="${GOPATH:-/root/go}"; export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTRACEBACK=single TZ=UTC
WORK="$(mktemp -d /tmp/solid-verif.XXXXXX)" || exit 2
trap 'chmod -R u+w "$WORK" 2>/dev/null; rm -rf "$WORK"' EXIT
mkdir -p "$WORK/cwd" "$VERIF/evidence"
SEED="${VERIF_SEED:-1}"; case "$SEED" in ''|*[!0-9]*) SEED=1;; esac
export VERIF_SEED="$SEED"
RSEED=$(( (SEED % 1000000) * 7919 + 104729 ))
case "$MODE" in
	thorough) export VERIF_TIER=thorough; LIMIT=7000;;
	*) export VERIF_TIER=quick; LIMIT=800;;
esac
export HX_EVIDENCE="$VERIF/evidence/$ID.json"
export HX_KNOWN="$VERIF/known-findings.txt"
RACE=""
[ -f "$VERIF/harness/checks/$lc/RACE" ] && RACE="-race"
cd "$VERIF/harness" || exit 2
if ! go test $RACE -vet=off -c -o "$WORK/check.test" "./checks/$lc" >"$WORK/build.log" 2>&1; then
	cat "$WORK/build.log"
	echo "ERROR: the check of $ID could not be built"
	exit 2
fi
cd "$WORK/cwd" || exit 2
export HX_RSEED="$RSEED"
ARGS=(-test.v=true -test.timeout="${LIMIT}s" -rapid.seed="$RSEED" -rapid.shrinktime=20s)
if [ "$MODE" = replay ]; then
	sub="$(sed -n 's/^# subtest: //p' "$3" | head -1)"
	sed -n 's/^# rapidfile: //p' "$3" | base64 -d > "$WORK/cwd/failfile" 2>/dev/null
	[ -n "$sub" ] && export HX_ONLY="$sub"
	[ -s "$WORK/cwd/failfile" ] && ARGS+=(-rapid.failfile="$WORK/cwd/failfile")
	rs="$(sed -n 's/^# rapidseed: //p' "$3" | head -1)"
	[ -n "$rs" ] && export HX_RSEED="$rs"
	export HX_EVIDENCE=""
fi
timeout -k 10 $((LIMIT + 30)) "$WORK/check.test" "${ARGS[@]}" >"$WORK/log" 2>&1
rc=$?
grep -a '^KNOWN-FINDING: ' "$WORK/log"
if [ $rc = 0 ]; then
	grep -aE '^(ok|PASS|--- )' "$WORK/log" | tail -3
	echo "OK: $ID held on everything explored ($VERIF_TIER, seed $SEED)"
	exit 0
fi
head -c 6000 "$WORK/log" | grep -av '^=== RUN'
if grep -aq 'panic: test timed out after' "$WORK/log" || [ $rc = 124 ] || [ $rc = 137 ]; then
	tail -c 3000 "$WORK/log"
	echo "ERROR: the check of $ID did not finish (rc $rc): inconclusive"
	exit 2
fi
if grep -aqE 'cannot allocate memory|out of memory|resource temporarily unavailable|no space left on device|newosproc' "$WORK/log"; then
	tail -c 3000 "$WORK/log"
	echo "ERROR: the check of $ID ran out of resources: inconclusive"
	exit 2
fi
if ! grep -aqE '^\s*--- FAIL|^panic:|^fatal error:|WARNING: DATA RACE' "$WORK/log" || grep -aq 'HARNESS-ERROR' "$WORK/log"; then
	tail -c 3000 "$WORK/log"
	echo "ERROR: the check of $ID ended abnormally (rc $rc)"
	exit 2
fi
if grep -aqE '\[rapid\] only generated|HX-INCONCLUSIVE' "$WORK/log" && ! grep -aqE '\[rapid\] (failed|panic)' "$WORK/log"; then
	echo "ERROR: the check of $ID generated too few cases: inconclusive"
	exit 2
fi
[ "$MODE" = replay ] && { echo "VIOLATION property=$ID replay=$3"; exit 1; }
mkdir -p "$VERIF/replays"
REPLAY="$VERIF/replays/$ID-$VERIF_TIER-$SEED.txt"
{
	echo "# property: $ID"
	echo "# replay with: /verif/run.sh $ID replay $REPLAY"
	echo "# rapidseed: $RSEED"
	ff="$(find "$WORK/cwd/testdata" -name '*.fail' 2>/dev/null | sort | head -1)"
	sub="$(grep -aoE -- '--- FAIL: Test[A-Za-z0-9_]*/[^ ]+' "$WORK/log" | head -1 | sed 's#.*/##')"
	[ -n "$sub" ] && echo "# subtest: $sub"
	[ -n "$ff" ] && echo "# rapidfile: $(base64 -w0 "$ff")"
	head -c 200000 "$WORK/log"
} > "$REPLAY"
echo "VIOLATION property=$ID replay=$REPLAY"
exit 1
