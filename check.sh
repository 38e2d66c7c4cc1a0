#!/bin/bash
# check.sh ID: decides one property against /repo's working tree.
# VERIF_SEED and VERIF_TIER (quick, thorough) come from the environment.
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: check.sh ID}
shift
dir=$(mktemp -d /tmp/verif-XXXXXXXX) || exit 2
trap 'rm -rf -- "$dir"' EXIT
trap 'exit 2' INT TERM
race=
case $id in C01|C02|C11) race=race ;; esac
if ! bash "$here/build.sh" "$dir" $race >"$dir/build.log" 2>&1; then
	cat "$dir/build.log" >&2
	echo "check.sh: build failed" >&2
	exit 2
fi
set -- run -prop "$id" -seed "${VERIF_SEED:-1}" -tier "${VERIF_TIER:-quick}" -verif "$here" -dir "$dir" "$@"
[ -n "$race" ] && set -- "$@" -race "$dir/vsim-race"
"$dir/vsim" "$@"
