#!/bin/bash
# tryrev.sh COMMIT CHECK...: undo one fix commit in a scratch copy of /repo and run checks on it
s=$1; shift; d=/tmp/rev_$s; rm -rf "$d"; mkdir -p "$d"; cp -a /repo "$d/repo"; git -C "$d/repo" show $s | git -C "$d/repo" apply -R || exit 9
for c in "$@"; do MWSA_REPO=$d/repo python3 /verif/check.py $c | tail -${TAIL:-12} | cut -c1-400; done
rm -rf "$d"
