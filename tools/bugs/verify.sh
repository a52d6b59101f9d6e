#!/bin/bash
# verify.sh ID… : demo on clean tree (uses a copy of /repo in /tmp/bt/w so /repo is untouched), demo with patch
for id in "$@"; do
 rm -rf /tmp/bt/w; mkdir /tmp/bt/w; cp -r /repo/src /repo/Cargo.toml /tmp/bt/w/
 (cd /tmp/bt/w && bash /verif/seeded/$id/demo.sh > /tmp/bt/$id.clean 2>&1; echo "$id clean rc=$?"; tail -3 /tmp/bt/$id.clean)
 (cd /tmp/bt/w && patch -p1 -s < /verif/seeded/$id/patch.diff && bash /verif/seeded/$id/demo.sh > /tmp/bt/$id.bug 2>&1; echo "$id bug rc=$?"; tail -4 /tmp/bt/$id.bug)
done
