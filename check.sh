#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python harness/core.py "$1" --tier "${2:-quick}"
