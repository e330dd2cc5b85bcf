#!/bin/bash
# Nothing is built or installed: the checks import /repo directly and run the installed TLC.
cd "$(dirname "$0")" || exit 1
set -e
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/repo:$PWD"
/opt/venv/bin/python -c 'import harness.real'
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp spec/*.tla "$t"; cd "$t"
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >"$t/out" 2>&1 || { cat "$t/out"; exit 1; }
done
echo "specification parses: $(ls *.tla | tr '\n' ' ')"
