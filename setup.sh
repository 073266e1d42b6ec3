#!/bin/sh
# Everything is interpreted: only verify that the tools are there.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -W ignore -c 'import numpy, scipy, pygfunction, cv2'
for f in spec/*Trace.tla spec/MC_*.tla; do
    (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")" >/tmp/sany.$$ 2>&1) || { cat /tmp/sany.$$; exit 1; }
    if grep -q -i "error" /tmp/sany.$$; then cat /tmp/sany.$$; exit 1; fi
done
rm -f /tmp/sany.$$
