#!/bin/bash
# Nothing to install: check that the tools the checks need are here, and parse every spec.
cd "$(dirname "$0")" || exit 1
set -e
java -version 2>/dev/null >/dev/null
test -x /opt/venv/bin/python
/opt/venv/bin/python -c "import numpy, Cython, setuptools"
d=$(mktemp -d)
cp spec/*.tla "$d"/
cd "$d"
for f in *.tla; do
  java -cp "/opt/veriftools/tla/tla2tools.jar:$(ls /opt/veriftools/tla/*.jar | grep -v tla2tools | tr '\n' ':')" tla2sany.SANY "$f" > out.txt 2>&1 || { echo "spec $f does not parse"; cat out.txt; exit 1; }
  if grep -q "Semantic errors\|Parse Error\|Fatal errors" out.txt; then cat out.txt; exit 1; fi
done
cd /
rm -rf "$d"
echo "setup ok"
