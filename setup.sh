#!/bin/bash
# nothing to build: the encoding is regenerated from /repo on every check; confirm the tools are there
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python -c "import symx.engine as e; s=e.z3.Solver(); assert s.check()==e.z3.sat; print('z3', e.z3.get_version_string())"
