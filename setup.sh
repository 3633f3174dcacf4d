#!/bin/bash
# Builds the SSA exporter and warms the Go build cache; everything offline.
set -e
cd "$(dirname "$0")"
python3-vt - <<'P'
import sys
sys.path.insert(0, '.')
from gvc import driver
driver.build_gossa()
w = driver.Work('setup')
try:
    driver.export(w)
    import glob, os
    for d in sorted(glob.glob('harness/*/main.go')):
        driver.build_harness(w, os.path.basename(os.path.dirname(d)))
finally:
    w.close()
print('ready')
P
