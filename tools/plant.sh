#!/bin/bash
# plant.sh new ID      scratch copy of /repo in /tmp/plant/ID, to be edited
# plant.sh check ID    makes seeded/ID/patch.diff from it and confirms it
. /opt/vp/env.sh
W=/tmp/plant/$2; S=/verif/seeded/$2
case $1 in
new)
  mkdir -p /tmp/plant; rm -rf "$W"; cp -a /repo "$W"; mkdir -p $S
  cp -n /verif/tools/demo/demo.sh /verif/tools/demo/lib.go $S/ ;;
check)
  git -C $W diff > $S/patch.diff; [ -s $S/patch.diff ] || { echo "no change"; exit 1; }
  git -C /repo apply --check $S/patch.diff || exit 1
  (cd /repo && bash $S/demo.sh) || { echo "demo fails on the unchanged tree"; exit 1; }
  (cd $W && go build ./... && go vet ./proxy >/dev/null) || { echo "no build"; exit 1; }
  (cd $W && bash $S/demo.sh) && { echo "demo passes with the bug"; exit 1; }
  # the tests, in the copy: by bind of paths is not possible, so run what test.sh runs
  if [ -z "$NOTEST" ]; then
  cd $W && go test ./... 2>&1 | grep -E "^(--- FAIL|FAIL|panic)" | head
  fi
  echo CONFIRMED $2; rm -rf "$W";;
esac
