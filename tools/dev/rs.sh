#!/bin/bash
# run study: rs.sh study
cd /verif && (python3 tools/prep.py 2>&1 | tail -5; exit ${PIPESTATUS[0]}) || exit 1
time (ulimit -v 24000000; MXSA_WS=/verif/.cache/ws timeout ${T:-300} .cache/engine/release/mxsa .cache/args/vharness.lib $1 /tmp/$1.json > /tmp/$1.log 2>&1); echo rc $?; true
