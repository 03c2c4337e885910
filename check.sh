#!/bin/bash
# check.sh <property> <quick|thorough>
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python harness/main.py "$1" "${2:-quick}"
