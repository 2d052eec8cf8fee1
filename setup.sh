#!/bin/bash
# Nothing to compile: TLA+ modules are interpreted by TLC and /repo is plain Python.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh 2>/dev/null
mkdir -p evidence
[ -f /opt/veriftools/tla/tla2tools.jar ] || { echo "TLC missing"; exit 1; }
for m in spec/*.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")" > /tmp/sany.$$ 2>&1) || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
/opt/venv/bin/python -c "import sys; sys.path.insert(0, '/repo'); import spta.region.partition" || exit 1
echo ok
