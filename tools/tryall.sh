#!/bin/bash
# Like tryseeds.sh, four at a time and without touching /repo: each run sees a patched copy in its own mount namespace.
# tryall.sh [NAME...]; PATCHES=DIR takes DIR/NAME.diff instead of seeded/NAME/patch.diff, with the checks in $PROPS.
# VERIF_COPY=DIR runs the checks of a copy, so that /verif may be edited meanwhile.
scratch=$(mktemp -d /tmp/tryall.XXXXXX) || exit 1
trap 'rm -rf -- "$scratch"' EXIT
one() {
	s=$1 d=$2/$1
	mkdir -p "$d"
	cp -a /repo "$d/repo"; mkdir "$d/evidence"
	patch=/verif/seeded/$s/patch.diff
	[ -n "${PATCHES:-}" ] && patch=$PATCHES/$s.diff
	git -C "$d/repo" apply "$patch" || { echo "$s does not apply"; return; }
	for p in ${PROPS:-$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "/verif/seeded/$s/meta.json")}; do
		t=$SECONDS
		out=$(unshare -Urm bash -c "mount --bind ${VERIF_COPY:-/verif} /verif && mount --bind $d/repo /repo && mount --bind $d/evidence /verif/evidence && bash /verif/run.sh $p ${TIER:-quick}" 2>&1); rc=$?
		echo "$s $p rc=$rc $((SECONDS - t))s $(grep -m1 -A1 ^VIOLATION <<<"$out" | cut -c1-200 | tr '\n' ' ')$([ $rc = 3 ] && tail -3 <<<"$out" | cut -c1-300)"
	done
	rm -rf -- "$d"
}
export -f one
if [ $# -eq 0 ]; then
	if [ -n "${PATCHES:-}" ]; then set -- $(cd "$PATCHES" && ls *.diff | sed 's/\.diff$//'); else set -- $(ls /verif/seeded); fi
fi
printf '%s\n' "$@" | xargs -P "${JOBS:-4}" -I{} bash -c 'one "$1" "$2"' _ {} "$scratch"
