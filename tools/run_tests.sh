#!/bin/bash
# Run the project's own tests on the working tree of /repo and compare with the baseline.
OUT=$(mktemp /tmp/cetl-tests.XXXXXX.json)
bash /opt/vp/test.sh "$OUT" > "$OUT.log" 2>&1
python3 - "$OUT" <<'PY'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))
r = json.load(open(sys.argv[1]))
stable = b['stable']
names = set(stable if isinstance(stable[0], str) else [x['name'] for x in stable]) if isinstance(stable, list) else set(stable)
passed = set(r['passed'])
missing = sorted(names - passed)
print('stable', len(names), 'passed', len(passed), 'missing', len(missing), missing[:10], 'failed', r['failed'][:10])
sys.exit(1 if missing else 0)
PY
rc=$?
[ $rc -ne 0 ] && tail -50 "$OUT.log" | grep -i error | head
rm -f "$OUT" "$OUT.log"
exit $rc
