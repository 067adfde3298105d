#!/bin/bash
# Judge one planted bug: demo on the clean tree, then with the patch: demo, stable tests, its check(s). Restores /repo.
# Usage: bug.sh ID [CHECK ...]   (default: the property in meta.json)
id=$1; shift
d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "dirty /repo"; exit 3; }
trap 'git -C /repo checkout -q -- .' EXIT
export PYTHONDONTWRITEBYTECODE=1
demo() { (cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo.out 2>&1); echo $?; }
a=$(demo); [ "$a" = 0 ] || tail -3 /tmp/demo.out
git -C /repo apply $d/patch.diff || exit 3
b=$(demo)
echo "$id: demo clean=$a patched=$b: $(tail -1 /tmp/demo.out | cut -c1-150)"
[ -n "$NOTESTS" ] || bash /verif/tools/repotest.sh
[ $# -gt 0 ] || set -- $(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif
for c in "$@"; do
  VSIM_HANG=1 timeout 900 /opt/venv/bin/python run.py check $c --tier quick 2>/dev/null | grep "^VIOL\|^viol\|^C[0-9]\|harness" | cut -c1-220
done
rm -f /verif/replays/*
