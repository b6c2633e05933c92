#!/bin/sh
# nothing to build: the verifier is Python and reads /repo at check time; fail early if a tool is missing
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c "import numpy, chainer, gym, chainerrl"
python3-vt -c "import z3"
mkdir -p evidence replays
