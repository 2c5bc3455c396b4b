#!/bin/bash
# seedtest.sh ID [noch]: confirms a seeded bug in a scratch copy of /repo (demo passes without, fails with the patch, stable
# tests pass with it), then, unless noch, runs its property's check against /repo with the patch applied
. /verif/tools/env.sh
d=/verif/seeded/$1
w=/tmp/seedwt-$1
git -C /repo worktree add -f --detach $w HEAD >/dev/null 2>&1 || exit 9
fin() { git -C /repo worktree remove --force $w; }
trap fin EXIT
cd $w
cp -a /repo/.gitignore . 2>/dev/null
bash $d/demo.sh >/tmp/seed-$1.a 2>&1; a=$?
git apply $d/patch.diff || { echo "$1: PATCH DOES NOT APPLY"; exit 9; }
go build ./... || { echo "$1: DOES NOT BUILD"; exit 9; }
bash $d/demo.sh >/tmp/seed-$1.b 2>&1; b=$?
echo "$1: demo without=$a with=$b"
bash /verif/tools/t.sh $w
if [ "$2" != noch ]; then
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff && (cd /verif; python3 check.py $p quick 2>&1 | grep -v KNOWN | cut -c1-300 | head -8; echo "exit ${PIPESTATUS[0]}"); git -C /repo checkout -q -- .
fi
