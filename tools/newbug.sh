#!/bin/bash
# newbug.sh ID [features] [dependencies] : turn the changes in /tmp/wt into seeded/ID.
set -e
S=/verif/seeded/$1; mkdir -p $S
git -C /tmp/wt diff > $S/patch.diff
sed -e "s/FEATURES/${2:-}/" -e "s/^EXTRA$/${3:-}/" /verif/tools/demo.sh.tpl > $S/demo.sh
git -C /tmp/wt checkout -q -- .
