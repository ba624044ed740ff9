#!/bin/bash
# run.sh ID [quick|thorough] : decide one property on /repo's working tree
d="$(cd "$(dirname "$0")" && pwd)"
exec /opt/venv/bin/python -B -W ignore "$d/check.py" "$1" --tier "${2:-${VERIF_TIER:-quick}}" "${@:3}"
