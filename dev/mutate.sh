#!/bin/bash
# mutate.sh <name> <args of mutate.py>: in a mount-namespace with copies of /repo and /verif
W=/tmp/mutw/$1; shift; rm -rf $W/repo; mkdir -p $W/verif; cp -a /repo $W/repo; rsync -a --delete --exclude /build /verif/ $W/verif/; mkdir -p $W/verif/build
exec unshare -m bash -c "mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /verif; bash build.sh c01 build/c01 >/dev/null 2>&1; python3 dev/mutate.py $*"
