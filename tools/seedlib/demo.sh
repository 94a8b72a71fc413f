#!/bin/bash
# run in the repository's root; exit 0 if the property holds
here="$(cd "$(dirname "$0")" && pwd)"
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here" exec "$py" "$here/demo.py"
