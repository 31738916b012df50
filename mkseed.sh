#!/bin/bash
# mkseed.sh <id>: from a scratch worktree /tmp/w/repo with the change applied, records seeded/<id>/patch.diff and
# confirms: builds, stable tests pass, demo passes without and fails with the change.
id=$1; d=/verif/seeded/$id; set -u
. /opt/vp/env.sh
[ -f "$d/demo.sh" ] || { echo "no demo"; exit 2; }
cd /tmp/w/repo && git diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "empty patch"; exit 2; }
go build ./... || { echo BUILD FAILS; exit 1; }
(cd /tmp/w/repo && git stash -q && bash "$d/demo.sh" >/tmp/w/d0 2>&1; echo "demo clean: $?"; git stash pop -q && bash "$d/demo.sh" >/tmp/w/d1 2>&1; echo "demo patched: $?"; tail -2 /tmp/w/d1)
bash /tmp/w/tests.sh
git -C /tmp/w/repo checkout -q -- .
