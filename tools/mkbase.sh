#!/bin/bash
# records the names and loop skeletons of the current /repo tree, to which the contracts were written
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
(cd $V/extract && CARGO_TARGET_DIR=$V/target/extract cargo build --offline -q)
$V/target/extract/debug/vx-extract --src /repo/src --contracts $V/contracts --out /tmp/vx-base.rs --report /tmp/vx-base.json --write-snapshot $V/contracts/base.snapshot
python3 - "$V" <<'P'
import json,sys
d=json.load(open('/tmp/vx-base.json'))
open(sys.argv[1]+'/contracts/base.nocontract','w').write(''.join(f['key']+'\n' for f in d['functions'] if not f['contract']))
P
rm -f /tmp/vx-base.rs /tmp/vx-base.json
