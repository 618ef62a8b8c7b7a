#!/bin/bash
# Runs the check of its property (or of $PROPS) against each planted bug: tryseeds.sh [NAME...]. Leaves /repo as it was.
cd /verif/seeded || exit 1
[ $# -gt 0 ] || set -- *
for s in "$@"; do
	git -C /repo apply "/verif/seeded/$s/patch.diff" || { echo "$s does not apply"; continue; }
	for p in ${PROPS:-$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "/verif/seeded/$s/meta.json")}; do
		t=$SECONDS
		out=$(bash /verif/run.sh "$p" "${TIER:-quick}" 2>&1); rc=$?
		echo "$s $p rc=$rc $((SECONDS - t))s $(grep -m1 -A1 ^VIOLATION <<<"$out" | cut -c1-200 | tr '\n' ' ')"
		[ "$rc" = 3 ] && tail -3 <<<"$out"
	done
	git -C /repo checkout -q -- .
done
git -C /repo status --short
