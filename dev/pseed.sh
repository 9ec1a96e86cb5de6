#!/bin/bash
# pseed.sh <id>...: seed.sh on copies of /repo and /verif in a mount-namespace of its own, one after another; results in /tmp/pseed/<id>.log
W=/tmp/pseed; mkdir -p $W
for id in "$@"; do
(
flock 9
rm -rf /tmp/pseed/repo; cp -a /repo /tmp/pseed/repo; git -C /tmp/pseed/repo checkout -q -- .
mkdir -p /tmp/pseed/verif; rsync -a --delete --exclude /build /verif/ /tmp/pseed/verif/ 2>/dev/null || { rm -rf /tmp/pseed/verif; mkdir /tmp/pseed/verif; (cd /verif; tar cf - --exclude=./build .) | (cd /tmp/pseed/verif; tar xf -); mkdir -p /tmp/pseed/build; ln -sfn /tmp/pseed/build /tmp/pseed/verif/build; }
unshare -m bash -c 'mount --bind /tmp/pseed/repo /repo; mount --bind /tmp/pseed/verif /verif; cd /verif; bash dev/seed.sh '$id > $W/$id.log 2>&1
echo "done $id: $(tail -1 $W/$id.log)" >> $W/all.log
) 9>/tmp/pseed.lock
done
