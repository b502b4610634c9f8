#!/bin/bash
# nothing to build: checks that the interpreter can import the package and the explorer
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore -c "import mc.core, mc.env; mc.env.prepare(); print('ok')"
