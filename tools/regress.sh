#!/bin/bash
# Undo one fix commit in /repo's working tree, run a check, and restore. Usage: regress.sh COMMIT CHECK [run.py args]
c=$1; id=$2; shift 2
cd /repo && [ -z "$(git status --porcelain)" ] || { echo "dirty /repo"; exit 3; }
trap 'git -C /repo checkout -q -- .' EXIT
git show "$c" | git apply -R --3way 2>/dev/null || git show "$c" | git apply -R || { git checkout -q -f HEAD -- .; echo "cannot revert $c"; exit 3; }
git reset -q
cd /verif && /opt/venv/bin/python run.py check "$id" "$@" | grep -v "^check\|^faults\|^probes"
