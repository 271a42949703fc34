#!/bin/bash
# determinism.sh [checks...]: every check twice with different worker counts and hash seeds; the digests over all event logs must be equal.
cd "$(dirname "$0")/.." || exit 2
checks=${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
bad=0
one() { PYTHONHASHSEED=$2 /opt/venv/bin/python sim/run.py check "$1" --tier quick --workers "$3" >/dev/null 2>&1; echo "rc=$? $(python3 -c "import json;print(json.load(open('evidence/$1.json'))['coverage']['event_log_digest'][:16])")"; }
for c in $checks; do
  a=$(one "$c" 0 8); b=$(one "$c" 12345 5)
  [ "$a" = "$b" ] && echo "$c same $a" || { echo "$c DIFFERS $a / $b"; bad=1; }
done
exit $bad
