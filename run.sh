#!/bin/bash
# run.sh PROPERTY quick|thorough [--replay FILE]   -- run one check against /repo's working tree
cd "$(dirname "$(readlink -f "$0")")" || exit 2
unset PYTHONPATH; [ -n "$VP_REPO" ] && export PYTHONPATH="$VP_REPO"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -B -m vp.main "$@"
