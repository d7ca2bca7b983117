#!/bin/bash
# run.sh PROPERTY TIER
cd "$(dirname "$0")" || exit 2
exec /opt/veriftools/pyvenv/bin/python -B check.py "$1" --tier "${2:-quick}"
