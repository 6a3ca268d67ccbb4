#!/bin/sh
# nothing to build: checks that the tools are there and that every module parses
cd "$(dirname "$0")/../spec" || exit 1
test -x /opt/venv/bin/python || { echo "no project interpreter"; exit 1; }
for f in *.tla; do
  case $f in *Proof.tla) continue ;; esac   # read by tlapm, which brings module TLAPS
  java -Djava.io.tmpdir="${TMPDIR:-/tmp}" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import sys; sys.path.insert(0, '/repo/src'); import satisfy" || exit 1
echo setup ok
