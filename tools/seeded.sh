#!/bin/bash
# seeded.sh [-a] [-d DIR] [ID...]: in copies of /repo and /verif applies each planted bug, runs the check of its
# property (-a: all checks), undoes it. -d: where the bugs are (default: /verif/seeded).
here=$(cd "$(dirname "$0")/.." && pwd)
all= dir=$here/seeded
[ "${1:-}" = -a ] && { all=1; shift; }
[ "${1:-}" = -d ] && { dir=$2; shift 2; }
[ $# -gt 0 ] || set -- $(ls "$dir")
w=$(mktemp -d /tmp/sd.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
git clone -q /repo "$w/repo" && mkdir "$w/verif" && cp -a "$here"/{check.sh,harness,KNOWN_FINDINGS.jsonl,MANIFEST.json} "$w/verif/" || exit 2
mkdir -p "$w/verif/evidence" "$w/verif/replays"
sed -i "s|=> /repo|=> $w/repo|" "$w/verif/harness/go.mod"
for id; do
	prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$dir/$id/meta.json")
	props=$prop
	[ -z "$all" ] || props=$(python3 -c 'import json,sys; print(*[c["property"] for c in json.load(open(sys.argv[1]))["checks"]])' "$w/verif/MANIFEST.json")
	git -C "$w/repo" apply "$dir/$id/patch.diff" || { echo "$id does not apply"; continue; }
	caught=
	for p in $props; do
		(cd "$w/verif" && timeout 900 ./check.sh $p) >"$w/out" 2>&1
		rc=$?
		if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " "$w/out"; then caught="$caught $p"; elif [ $rc != 0 ]; then caught="$caught $p(rc=$rc)"; fi
	done
	git -C "$w/repo" checkout -q -- .
	case " $caught " in *" $prop "*) r=caught ;; *) r=MISSED ;; esac
	echo "$id $prop $r:$caught"
done
