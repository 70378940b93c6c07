#!/bin/bash
# Nothing is compiled: the checks are Python and run the code of /repo's working tree in place.
# This only makes sure that the interpreter, the package and the harness can be imported.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replay
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONWARNINGS=ignore
/opt/venv/bin/python -c "import gcv.core, gcv.run, geocat.comp; print('setup ok', geocat.comp.__file__)"
