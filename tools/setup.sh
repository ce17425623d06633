#!/bin/bash
# Nothing has to be built: the checks import /repo/src directly.  This only
# confirms that the framework and the code under test load in this sandbox.
cd "$(dirname "$0")/.." || exit 2
mkdir -p evidence
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1
for i in $(seq -w 1 99); do
    [ -f "mc/props/c$i.py" ] || continue
    "$PY" -c "import mc.main; mc.main.load('C$i').scenarios('quick', 1)" || exit 1
done
echo "setup: all checks load"
