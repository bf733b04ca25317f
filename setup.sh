#!/bin/bash
# Fills /verif/.cache with objects of the current tree, so that checks recompile only what changes. Offline.
cd "$(dirname "$0")"
mkdir -p .cache evidence
python3 lib/build.py std
python3 lib/build.py io
PYTHONPATH=lib:checks python3 -c '
import pool, T05
pool.parent_init()
T05.parent_init("quick")
'
exit 0
