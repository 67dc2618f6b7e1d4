#!/bin/bash
# Nothing has to be installed: parse the specification and see that the code under test builds.
set -e
cd "$(dirname "$0")"
mkdir -p .work .build evidence replays
cd spec
for m in Trace FnTrace TimeTrace FeedTrace; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla >/dev/null
done
