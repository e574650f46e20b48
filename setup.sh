#!/bin/bash
# nothing to build: the checks are Python and import the tree under test directly; verify the interpreter and its one dependency
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence replays
"$PY" -B -c "import sys; assert sys.version_info >= (3, 11); import Cryptodome" && echo ok
