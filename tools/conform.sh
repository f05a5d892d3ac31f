#!/bin/bash
# Replays every short script of system calls and loop operations on the simulated environment (mc/simos.cpp) and on
# the real kernel and libuv, and compares the results.   tools/conform.sh [extra depth, 0-1]
cd "$(dirname "$0")/.." || exit 2
x=${1:-0}; T=$(mktemp -d); trap 'find "$T" -mindepth 1 -delete; rmdir "$T"' EXIT
clang++ -std=c++17 -O1 -w -DCONF_REAL h/simconf.cpp -o "$T/real" -luv || exit 2
"$T/real" "$x" > "$T/table" || exit 2
exe=$(python3 -c "import sys; sys.argv=['x']; import check; print(check.build('simconf'))") || exit 2
CONF_FILE="$T/table" CONF_EXTRA=$x "$exe" --prop CONF --out "$T/out.json" --replay-dir "$T" > "$T/log" 2>&1; rc=$?
python3 - "$T/out.json" <<'P'
import json, sys
d = json.load(open(sys.argv[1]))
for s in d["scenarios"]: print(s["name"], s["executions"], "scripts")
if d.get("violation"): print(json.dumps(d["violation"])[:1500])
print("conformance", "FAILED" if d.get("violation") else "ok")
P
exit $rc
