#!/bin/bash
. /opt/vp/env.sh
cd /verif && OMP_NUM_THREADS=1 python tools/all_violations.py "$@" 2>&1 | cut -c1-330
