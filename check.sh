#!/bin/bash
# usage: check.sh C05 [--tier quick|thorough] [...]
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m mc "$@"
