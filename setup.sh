#!/bin/bash
# nothing to compile: checks that the interpreter, the repository and the engine are usable
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 python -W ignore -c "
import mc.main as m
m.import_repo()
import nevergrad
print('nevergrad from', nevergrad.__file__)"
