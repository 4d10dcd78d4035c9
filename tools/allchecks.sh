#!/bin/bash
# allchecks.sh [REPO]: every claimed check once, into /tmp/vv
cd "$(dirname "$0")/.." && ./check.sh build || exit 2
for p in $(python3 -c 'import json; print(*[c["property"] if "property" in c else c["id"] for c in json.load(open("MANIFEST.json"))["checks"]])'); do
  timeout 900 bin/analyzer -repo ${1:-/repo} -prop $p -verif /tmp/vv 2>&1 | tail -${LINES_PER:-1} | sed "s/^/$p: /" | cut -c1-300
done
