#!/bin/sh
# tryseed.sh ID...: runs the check of each seeded bug's property against it (applied to /repo and undone).
cd /verif
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  echo "== $i"
  python3 check.py $p | cut -c1-260
  git -C /repo checkout -q -- .
done
