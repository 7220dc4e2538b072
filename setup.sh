#!/bin/bash
# Unpack hypothesis (offline wheels) next to the harness; each check repeats this if it is missing.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$here/lib" /opt/venv/bin/python -B -c "import bootstrap; bootstrap.ensure(); import hypothesis; print('hypothesis', hypothesis.__version__)"
