#!/bin/bash
# tryseed.sh SEED [CHECK...]: apply the planted bug to a scratch copy of /repo and run checks on it
s=$1; shift; d=/tmp/try_$s; rm -rf "$d"; mkdir -p "$d"; cp -a /repo "$d/repo"; git -C "$d/repo" apply /verif/seeded/$s/patch.diff || exit 9
[ $# -eq 0 ] && set -- $(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
for c in "$@"; do MWSA_REPO=$d/repo python3 /verif/check.py $c | tail -${TAIL:-12}; done
rm -rf "$d"
