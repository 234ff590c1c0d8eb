#!/bin/bash
# Checks that the tools are there and that every module of the specification parses.
cd "$(dirname "$0")/.." || exit 2
/opt/venv/bin/python -c 'import sys; sys.path.insert(0, "/repo"); import amazon.ion.simpleion' || exit 1
mods=$(ls spec/*.tla)
java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar -DTLA-Library=spec tla2sany.SANY $mods > /tmp/ionverif.sany 2>&1 || { cat /tmp/ionverif.sany; exit 1; }
rm -f /tmp/ionverif.sany
echo "specification parses: $(echo $mods | wc -w) modules"
