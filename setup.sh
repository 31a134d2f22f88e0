#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export PYTHONPATH="/repo:$here"
cd "$here" || exit 2
chmod +x run.sh 2>/dev/null
exec /opt/venv/bin/python -W ignore -c "
import numpy as np
from mon import oracle
oracle.selftest(np.random.RandomState(7))
import qosy
print('oracle self-test passed; qosy imports')"
