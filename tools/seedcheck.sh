#!/bin/bash
# seedcheck.sh NAME...   for scratch copies /tmp/sw/NAME (cp -a /repo, edited): writes seeded/NAME/patch.diff,
# builds and tests the copy in its own mount namespace (as /repo), runs the demonstration with and without it.
V=$(cd "$(dirname "$0")/.." && pwd)
for n in "$@"; do
  w=/tmp/sw/$n; d=$V/seeded/$n
  mkdir -p $d
  git -C $w diff > $d/patch.diff
  [ -s $d/patch.diff ] || { echo "$n: empty patch"; continue; }
  (cd /repo && bash $d/demo.sh > /tmp/sw/$n.demo0 2>&1); a=$?
  unshare -Urm bash -c "mount --bind $w /repo && bash /opt/vp/test.sh /tmp/sw/$n.json > /tmp/sw/$n.log 2>&1; cd /repo && bash $d/demo.sh > /tmp/sw/$n.demo1 2>&1; echo \$? > /tmp/sw/$n.rc1"
  b=$(cat /tmp/sw/$n.rc1)
  echo "$n: $(tail -1 /tmp/sw/$n.log)  demo unchanged=$a changed=$b"
done
