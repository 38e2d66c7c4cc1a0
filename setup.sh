#!/bin/bash
# setup.sh: builds everything once, so that the checks find a warm build cache.
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d /tmp/verif-setup-XXXXXXXX) || exit 1
trap 'rm -rf -- "$dir"' EXIT
bash "$here/build.sh" "$dir" race
