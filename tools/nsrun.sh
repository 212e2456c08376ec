#!/bin/sh
# nsrun.sh NAME CMD…: runs CMD on throw-away copies of /repo and /verif (mounted over the originals in a mount namespace of its own)
n=$1; shift
d=/tmp/ns/$n; mkdir -p $d/repo $d/verif
rsync -a --delete /repo/ $d/repo/ 2>/dev/null || { cp -a /repo/. $d/repo/; }
rsync -a --delete /verif/ $d/verif/ 2>/dev/null || { cp -a /verif/. $d/verif/; }
exec unshare -m sh -c 'mount --bind '$d'/repo /repo && mount --bind '$d'/verif /verif && cd /verif && exec "$@"' sh "$@"
