#!/bin/bash
# check.sh <property id> [tier]: builds the explorer against /repo's working tree and runs one check.
# Exit 0: held. Exit 1 and a VIOLATION line: broken. Anything else: the check could not run.
id=${1:?property id}
here=$(cd "$(dirname "$0")" && pwd) || exit 2
. "$here/env.sh"
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-$id.XXXXXX") || exit 2
trap 'rm -rf -- "$work"' EXIT
export TMPDIR=$work
tier=${2:-${VERIF_TIER:-quick}}
mkdir -p "$here/evidence" "$here/replays" || exit 2
cd "$here/harness" || exit 2

build() { # build <output> <go build flags...>
	local out=$1
	shift
	go build "$@" -o "$out" . >"$work/build.log" 2>&1
}

if ! build "$work/h"; then
	cat "$work/build.log" >&2
	echo "check.sh: the explorer does not build against /repo" >&2
	exit 2
fi
args=()
if [ "$id" = C28 ]; then
	mkdir "$work/overlay"
	if ! { "$work/h" -instrument "$work/overlay" && build "$work/hs" -overlay "$work/overlay/overlay.json" -tags sched; }; then
		cat "$work/build.log" >&2
		echo "note: no statement-level schedules, the instrumented build failed" >&2
		cp "$work/h" "$work/hs"
	fi
	if ! build "$work/hr" -race; then
		cat "$work/build.log" >&2
		echo "note: no race detector, the build failed" >&2
		cp "$work/h" "$work/hr"
	fi
	args=(-sched "$work/hs" -race "$work/hr")
fi

"$work/h" -prop "$id" -tier "$tier" -dir "$here" "${args[@]}" >"$work/out" 2>"$work/err"
code=$?
cat "$work/out"
cat "$work/err" >&2
case $code in
0) ;;
1) grep -q "^VIOLATION property=$id " "$work/out" || code=2 ;;
*)
	# The runtime ends a process by itself on stack exhaustion, concurrent map access and the like;
	# when that happened inside the library it is the library's failure.
	if grep -Eq '^(fatal error|runtime: goroutine stack exceeds)' "$work/err" && grep -q 'vanclief/finmod' "$work/err"; then
		log=$here/replays/$id-$tier-crash.log
		head -c 20000 "$work/err" >"$log"
		echo "VIOLATION property=$id replay=$log"
		code=1
	fi
	;;
esac
grep "^known: property=$id " "$here/known-findings.txt" | sed 's/^known:/KNOWN-FINDING:/'
exit $code
