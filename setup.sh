#!/bin/bash
# Nothing to compile: the checks run /repo's Python code directly.  Verify the interpreter is usable.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
/opt/venv/bin/python -B -c 'import numpy, scipy, astropy, h5py, requests' || exit 1
echo ready
