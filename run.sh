#!/bin/sh
# usage: run.sh <property id> [--tier quick|thorough] [--replay file] [-v]
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=. exec /opt/veriftools/pyvenv/bin/python -m symx.runner "$@"
