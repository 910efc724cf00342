#!/bin/bash
# quick look: q.sh ID [seed] [tier] [profile]
cd /verif/harness
P=${4:-checked}
/usr/bin/time -f "%es %MKB" ./target/$P/bsv run $1 --seed ${2:-1} --tier ${3:-quick} --out /tmp/o_$1.json ${5:+--cases $5}; echo "exit $?"
python3 - <<PY
import json
try: d=json.load(open('/tmp/o_$1.json'))
except Exception as e: print(e); raise SystemExit
print(d['status'],'eval',d['evaluations'],'distinct',d['distinct'],'disc',d['discarded'],d['labels'],d['wall_s'])
if 'message' in d: print('IDX',d['idx'],'TAPE',len(d['tape'])); print(d['message'][:3000])
PY
