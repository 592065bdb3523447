#!/bin/bash
# nothing to build: the checks are Python and import ticdat straight from /repo.  Fail early if the interpreter is unusable.
cd /verif || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import pandas, numpy, sqlalchemy, openpyxl, xlsxwriter, xlrd" || exit 1
echo setup ok
