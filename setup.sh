#!/bin/bash
# nothing to compile: checks that the library and the simulator can be imported
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/repo/src:$here"
mkdir -p evidence replays
/opt/venv/bin/python -W ignore -c "import tight_binding_redweasel, sim.core, sim.fs, sim.interrupt, sim.models"
