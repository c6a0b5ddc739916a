#!/bin/bash
# usage: run.sh <property id> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m harness.main "$@"
