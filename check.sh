#!/bin/bash
# check.sh PROPERTY [--tier quick|thorough] [--seed N] [--only sub,...] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m pbt "$@"
