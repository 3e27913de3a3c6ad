#!/bin/bash
# development helper: show the proof part of one property: pv.sh C08 [contract substring]
cd "$(dirname "$0")" && VERIF_SHOW=1 timeout 900 python3-vt -m engine.prove "$1" "${TIER:-quick}" /tmp/pv_$1.json $2
