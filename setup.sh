#!/bin/bash
# nothing to build: the library and the monitors are Python. Verifies that the interpreter can run them.
cd "$(dirname "$0")" || exit 1
chmod +x check.sh
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, scipy, sklearn, dill, joblib" 
