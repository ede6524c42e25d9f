#!/bin/bash
# nothing to compile: the checks import the package from /repo
cd "$(dirname "$0")" && mkdir -p evidence replays && /opt/venv/bin/python -B -c "import harness, hypothesis, numpy, scipy, girth"
