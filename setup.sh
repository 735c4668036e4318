#!/bin/bash
# checks that everything the checks use is there; nothing has to be built ahead
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "
from vlib import env; env.setup()
import hypothesis, zounds
print('hypothesis', hypothesis.__version__, 'zounds', zounds.__file__)"
