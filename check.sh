#!/bin/sh
# usage: check.sh check <PROP> [--tier quick|thorough] | replay <file> | dev <contract>
cd "$(dirname "$0")" || exit 3
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 exec /opt/venv/bin/python -m pyvc.runner "$@"
