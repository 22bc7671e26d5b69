#!/bin/bash
# development helper: try.sh C05 [driver args]: builds one property and runs it, prints failures and counts
id=$1; shift
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -O1 -ffp-contract=off -DNDEBUG -I$(dirname "$0") -I${REPO:-/repo}/include $(dirname "$0")/../props/$id.cpp $(dirname "$0")/main.cpp -o $d/t 2>$d/err || { grep -E "error|required from" $d/err | head -${ERRS:-20}; exit 2; }
$d/t --replay-dir $d --out $d/o.json "$@"
python3 - $d/o.json <<'PY'
import json,sys
d=json.load(open(sys.argv[1]))
for t in d['tests']:
    print(f"{t['name']:34s} n={t['evaluations']:9d} nontriv={t['nontrivial']:9d} distinct={t['distinct_nontrivial']:9d} {t['labels']}")
for p in d['problems']: print('PROBLEM',p)
for f in d['failures']: print('FAIL',f['test'],f['kind'],f['message'],'\n     with',f['inputs'])
print('wall',d['wall_s'])
PY
