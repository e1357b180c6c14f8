#!/bin/bash
# Developer convenience: the repository's own build and tests against its baseline.
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -30 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/o.json')); print({k:(len(v) if isinstance(v,(list,dict)) else v) for k,v in o.items()})
for k in ('failed','fail'):
    if o.get(k): print(o[k])
P
