#!/bin/bash
# under.sh PATCH CMD... : development aid, run CMD in a private mount namespace where /repo is a copy with PATCH applied
P=$1; [ "$P" = - ] || P=$(realpath $P); shift
C=$(mktemp -d /tmp/w/under.XXXX)
trap 'rm -rf "$C"' EXIT
export P C
unshare -m bash -c 'cp -a /repo/. "$C"/; mount --bind "$C" /repo; cd /repo; git checkout -q -- .; [ "$P" = - ] || git apply "$P" || exit 9; cd /verif; "$@"' x "$@"
