#!/bin/bash
# builds the fact extractor and, as a by-product, the facts of the current tree
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
PY=python3
command -v python3-vt >/dev/null 2>&1 && PY=python3-vt
exec $PY -c 'import sys; sys.path.insert(0, "vlib"); import extract; print(extract.extract())'
