#!/bin/bash
# builds the native extension in the variants the checks use, from /repo's current sources, into /verif/.build
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
[ -x $PY ] || PY=python3
exec $PY -c 'import sys; sys.path.insert(0, "."); from rvlib import stage; [print(v, stage.build_ext(v)) for v in stage.VARIANTS]'
