#!/usr/bin/env bash
# Nothing to build: checks that the interpreter, the property library and the package under test can be loaded
cd "$(dirname "$0")/.." && mkdir -p evidence replays && NUMBA_DISABLE_JIT=1 /opt/venv/bin/python -c "
import sys; sys.path.insert(0, 'lib')
import boot; boot.import_package(); import hypothesis; print('hypothesis', hypothesis.__version__)"
