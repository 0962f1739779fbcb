#!/bin/sh
# nothing to build: the encoding is regenerated from /repo's source by every check; this only verifies that the tools are there
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence
exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
import symx, z3, numpy
print('z3', z3.get_version_string(), 'numpy', numpy.__version__)"
