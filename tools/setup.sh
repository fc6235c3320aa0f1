#!/bin/sh
# Parse every specification once (offline); fails if a module does not parse.
cd "$(dirname "$0")/../spec" || exit 1
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
rc=0
for f in *.tla; do
  java -cp $CP tla2sany.SANY "$f" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rc=1; }
done
rm -f /tmp/sany.$$
mkdir -p ../evidence ../replays
exit $rc
