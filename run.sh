#!/bin/sh
# run.sh check C01 | replay FILE | selftest ...
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec env PYTHONPATH="$here" PYTHONDONTWRITEBYTECODE=1 "$py" -B -m dst.main "$@"
