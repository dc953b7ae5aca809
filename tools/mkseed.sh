#!/bin/bash
# mkseed.sh NAME: turn the edits made in the scratch copy into seeded/NAME/patch.diff and revert the copy.
set -e
R=${SEED_REPO:-/var/tmp/seedwt/repo}
mkdir -p /verif/seeded/$1
git -C $R diff > /verif/seeded/$1/patch.diff
test -s /verif/seeded/$1/patch.diff
git -C $R checkout -q -- .
git -C /repo apply --check /verif/seeded/$1/patch.diff
