#!/bin/bash
# nothing to build: checks run from source. Confirms the tools are present and the engine works.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1
python3-vt -c "import z3, sys; sys.setrecursionlimit(20000); sys.path.insert(0, '.'); import pyvc.contract; print('z3', z3.get_version_string())" || exit 1
/opt/venv/bin/python -c "import numpy, numba, pymatgen; print('runtime ok')" || exit 1
