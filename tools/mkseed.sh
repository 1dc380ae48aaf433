#!/bin/bash
# mkseed.sh ID: after editing the worktree /tmp/seedwt (a git worktree of
# /repo), writes patch.diff of seeded/ID from it and resets the worktree.
# With "new": makes the worktree.
set -e
W=/tmp/seedwt
if [ "$1" = new ]; then git -C /repo worktree prune; rm -rf /tmp/seedwt; git -C /repo worktree add --detach $W HEAD >/dev/null; exit; fi
D=/verif/seeded/$1; mkdir -p "$D"
git -C $W diff > "$D/patch.diff"
[ -s "$D/patch.diff" ] || { echo "no change"; exit 1; }
(cd $W && go build ./... )
git -C $W checkout -- .
