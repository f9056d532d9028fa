#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds the harness against /repo's working tree and runs the monitors of a property.
# Exit 0: held; 1: violation (with its VIOLATION line); anything else: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property id}
tier=${2:-${VERIF_TIER:-quick}}
. "$here/env.sh"
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1} VERIF_EVIDENCE=${VERIF_EVIDENCE:-$here/evidence}
mkdir -p "$VERIF_EVIDENCE/replay"
rm -f "$VERIF_EVIDENCE/$id.json" "$VERIF_EVIDENCE/replay/$id.json" "$VERIF_EVIDENCE/replay/$id.log"
work=$(mktemp -d /tmp/verif.XXXXXX) || exit 5
trap 'rm -rf "$work"' EXIT
flags=()
case " C08 C09 C27 " in *" $id "*) flags+=(-race) ;; esac
cd "$here/harness" || exit 5
if ! go build -trimpath "${flags[@]}" -o "$work/harness" . >"$work/build.log" 2>&1; then
	cat "$work/build.log"
	echo "ERROR: the harness does not build against /repo"
	exit 5
fi
# The literals of the code under test steer the workload
VERIF_SRC=$(go list -m -f '{{.Dir}}' github.com/influxdata/go-syslog/v3) || exit 5
export VERIF_SRC
limit=840
[ "$tier" = thorough ] && limit=7200
export GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=100" GOTRACEBACK=all
timeout -k 10 $limit "$work/harness" "$id" >"$work/out" 2>"$work/err"
rc=$?
cat "$work/out"
if [ $rc = 0 ]; then
	# The same with 32-bit integers, where their size may matter (when the kernel can run that)
	case " C02 C12 C14 C15 C16 C17 C21 C24 C25 C29 C32 C34 C35 " in *" $id "*)
		if GOARCH=386 go build -trimpath -o "$work/harness32" . >"$work/build.log" 2>&1 && "$work/harness32" arch >/dev/null 2>&1; then
			mkdir -p "$work/ev32"
			VERIF_EVIDENCE=$work/ev32 timeout -k 10 $limit "$work/harness32" "$id" >"$work/out" 2>"$work/err"
			rc=$?
			sed -i "s#$work/ev32#$VERIF_EVIDENCE#" "$work/out"
			sed 's/^/32 bits: /; s/^32 bits: VIOLATION/VIOLATION/' "$work/out"
			if [ $rc = 0 ]; then
				python3 - "$VERIF_EVIDENCE/$id.json" "$work/ev32/$id.json" <<-'P'
					import json, sys
					a, b = (json.load(open(f)) for f in sys.argv[1:])
					a["coverage"]["with_32_bit_integers"] = {k: v for k, v in b["coverage"].items() if isinstance(v, int)}
					a["wall_s"] += b["wall_s"]
					json.dump(a, open(sys.argv[1], "w"), indent=1)
				P
			else
				cp -r "$work/ev32/." "$VERIF_EVIDENCE/"
			fi
		else
			echo "32 bits: not run here ($(head -c 300 "$work/build.log" | tr '\n' ' '))"
		fi
		;;
	esac
fi
# Again, guided by the branches the code under test takes and by the comparisons it makes
if [ $rc = 0 ]; then
	case " C08 C09 C24 C30 C31 " in *" $id "*) ;; *)
		secs=15
		[ "$tier" = thorough ] && secs=900
		if go build -trimpath -tags guided -gcflags='github.com/influxdata/go-syslog/v3/...=-d=libfuzzer -l' -ldflags=-checklinkname=0 -o "$work/guided" . >"$work/build.log" 2>&1; then
			mkdir -p "$work/evg"
			VERIF_EVIDENCE=$work/evg timeout -k 10 $((secs + 300)) "$work/guided" guided "$id" $secs >"$work/out" 2>"$work/err"
			rc=$?
			[ $rc = 1 ] && cp -r "$work/evg/replay" "$VERIF_EVIDENCE/"
			sed "s#$work/evg#$VERIF_EVIDENCE#" "$work/out"
			if [ $rc = 0 ] || [ $rc = 1 ]; then
				python3 - "$VERIF_EVIDENCE/$id.json" "$work/evg/$id.json" $rc $secs <<-'P'
					import json, os, sys
					a = json.load(open(sys.argv[1]))
					if os.path.exists(sys.argv[2]):
					    a["coverage"]["guided_by_the_code"] = json.load(open(sys.argv[2]))
					a["wall_s"] += float(sys.argv[4])
					if sys.argv[3] == "1":
					    a["violations"] = 1
					json.dump(a, open(sys.argv[1], "w"), indent=1)
				P
			elif [ $rc != 66 ] && [ $rc != 2 ] || ! grep -qE '^ *github.com/influxdata/go-syslog/v3' "$work/err"; then
				echo "guided: ended with $rc, nothing is concluded from it"
				rc=0
			fi
		else
			echo "guided: not run here ($(head -c 300 "$work/build.log" | tr '\n' ' '))"
		fi
		;;
	esac
fi
case $rc in
0) exit 0 ;;
1)
	grep -q "^VIOLATION property=$id " "$work/out" && exit 1
	;;
66 | 2)
	# The race detector, the runtime (fatal error, unrecovered panic) or a memory fault ended the process
	if grep -qE '^(WARNING: DATA RACE|fatal error: |panic: |unexpected fault address|SIGSEGV|runtime: )' "$work/err" && grep -qE '^ *github.com/influxdata/go-syslog/v3' "$work/err"; then
		log="$VERIF_EVIDENCE/replay/$id.log"
		head -c 200000 "$work/err" >"$log"
		head -60 "$work/err"
		# A monitor that dies cannot write its evidence: say what happened
		python3 - "$id" "$tier" "$VERIF_SEED" "$VERIF_EVIDENCE/$id.json" <<-'P'
			import json, sys
			json.dump({"property": sys.argv[1], "tier": sys.argv[2], "seed": int(sys.argv[3]), "level": "exploration", "violations": 1, "wall_s": 0,
			 "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run was ended by the race detector or by the runtime", "samples": ["see replay/%s.log" % sys.argv[1]]}}, open(sys.argv[4], "w"))
		P
		echo "VIOLATION property=$id replay=$log"
		exit 1
	fi
	;;
esac
head -60 "$work/err"
echo "NO ANSWER: the harness ended with $rc"
[ $rc = 1 ] && rc=5
exit $rc
