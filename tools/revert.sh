#!/bin/bash
# revert.sh COMMIT CHECK...: undoes a fix in a scratch copy and runs checks against it.
c=$1; shift
d=$(mktemp -d /tmp/revert.XXXXXX)
cp -a /repo "$d/repo"
git -C "$d/repo" revert -n "$c" || exit 1
for k in "$@"; do VERIF_REPO=$d/repo VERIF_OUT=$d/out "$(dirname "$0")/../check" "$k" | cut -c1-600 | head -4; done
rm -rf "${d:?}"
