#!/bin/bash
# usage: check.sh PROPERTY   (VERIF_SEED / VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
exec python3-vt vc/check.py "$1"
