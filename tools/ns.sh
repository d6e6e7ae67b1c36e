#!/bin/bash
# ns.sh CMD...: run with a scratch copy of /repo bound over /repo
D=$(mktemp -d /tmp/rwXXXXXX)
cp -a /repo/. $D/ 2>/dev/null
unshare -m bash -c 'mount --bind '$D' /repo; cd /verif; "$@"' _ "$@"
rc=$?
rm -rf $D
exit $rc
