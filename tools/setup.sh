#!/bin/bash
# Warms the build cache and makes sure that everything the checks need is there.
set -e
cd "$(dirname "$0")/.."
python3 - <<'P'
import sys
sys.path.insert(0, 'checks')
import lib
c = lib.Ctx('setup')
try:
    lib.build_harness(c)
    lib.build_horcrux(c)
    rc, out = lib.tlc(c, 'MCCoordinator.tla', 'MCCoordinatorConc.cfg', workers=4)
    assert 'No error has been found' in out, out[-2000:]
finally:
    c.close()
print('ready')
P
