#!/bin/bash
# developer helper: t.sh CASES ids...
cd /verif/harness; n=$1; shift
cargo build --offline --profile chk --features serde 2>&1 | grep -A9 "^error" | head -${E:-30}
for i in "$@"; do timeout 300 ./target/chk/c$i --out /tmp/o$i.json --cases $n --progress /tmp/p$i $X; rc=$?; [ $rc -gt 1 ] && echo "EXIT $rc"; python3 - <<EOT
import json
d=json.load(open('/tmp/o$i.json'));print(d['id'],'cases',d['cases'],'obs',d['observations'],'skip',d['skipped'],'dnt',d['distinct_nontrivial'],d['wall_s'],'s',d['reached'])
for v in d['violations'][:${V:-5}]: print('  ',v['case'],v['msg'][:400])
EOT
done
