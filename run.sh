#!/bin/bash
# bash run.sh <property> [thorough]: one check, from /verif against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 COLUMNS=120 MPLBACKEND=Agg
unset PYTHONPATH KPEX_FASTCAP_EXE KPEX_FASTERCAP_EXE KPEX_KLAYOUT_EXE KPEX_MAGIC_EXE PDKPATH PDK JAVA_TOOL_OPTIONS
[ -n "$KPEX_VERIF_PYTHONPATH" ] && export PYTHONPATH="$KPEX_VERIF_PYTHONPATH"
[ "$2" = thorough ] && export VERIF_TIER=thorough
exec /opt/venv/bin/python harness/main.py "$1"
