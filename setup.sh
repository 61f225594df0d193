#!/bin/bash
# Nothing to build: check that the tools the checks need are there and that every specification parses.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -c "import arti, sys; sys.path.insert(0, '.'); import vf.core, vf.tlc, vf.replay" || exit 1
cd spec || exit 1
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >/tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo ok
