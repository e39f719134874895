#!/bin/bash
# nothing to build: the checks run /repo's working tree directly.  Make sure the tools are there and the modules parse.
cd "$(dirname "$0")" || exit 2
d=$(mktemp -d) || exit 2
cp spec/*.tla "$d"/ || exit 2
cd "$d" || exit 2
for m in *.tla; do
    tla-sany "$m" > sany.log 2>&1 || { echo "SANY rejects $m"; cat sany.log; rm -rf "${d:?}"; exit 2; }
done
rm -rf "${d:?}"
/opt/venv/bin/python -c "import numpy, scipy, parse" || exit 2
echo "setup ok"
