#!/bin/sh
cd "$(dirname "$0")" && mkdir -p evidence && PYTHONPATH="$PWD" /opt/venv/bin/python -c "from sim import seams; seams.install(); import hylaa.core"
