#!/bin/bash
# Runs the repository's tests and compares with the baseline.
bash /opt/vp/test.sh /tmp/suite.json >/tmp/suite.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/suite.json'))
def names(d):
    for k in ("passed","stable","pass"):
        if k in d: return set(d[k])
    raise SystemExit(list(d))
m=names(b)-names(o)
print("missing", len(m), sorted(m)[:5], "of", len(names(b)))
P
