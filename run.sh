#!/bin/sh
# run.sh <property>: one check against /repo's current working tree
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg exec /opt/venv/bin/python drivers/check.py "$1"
