#!/bin/bash
# Nothing to compile: the checks import the code from /repo directly.
cd "$(dirname "$0")" && mkdir -p evidence replays && /opt/venv/bin/python -c "import torch, numpy" && echo ok
