#!/bin/bash
# mkbug.sh ID PROPERTY TREE REPLAY-OR-PLAN NEEDS BREAKS : keeps the change in TREE (a scratch copy of /repo) as seeded/ID
set -e
ID=$1 PROP=$2 TREE=$3 PLAN=$4
D=/verif/seeded/$ID
mkdir -p $D
git -C $TREE diff HEAD > $D/patch.diff
rm -rf $D/sim
cp -r /verif/sim $D/sim
rm -rf $D/sim/__pycache__
python3 - "$PLAN" $D/plan.json <<'PY'
import json, sys
p = json.load(open(sys.argv[1]))
json.dump([p.get('plan', p)], open(sys.argv[2], 'w'), indent=1, sort_keys=True)
PY
cat > $D/demo.sh <<DEMO
#!/bin/bash
# Runs one fixed simulated execution of the code in /repo; fails when $PROP's oracles object to it.
D=\$(cd "\$(dirname "\$0")" && pwd)
T=\$(mktemp -d)
trap 'rm -rf "\$T"' EXIT
TMPDIR=\$T bash "\$D/sim/jy.sh" "\$D/sim/worker.py" plan $PROP "\$T/out" "\$D/plan.json" > "\$T/log" 2>&1
python3 - "\$T/out" <<'PY' || { tail -5 "\$T/log"; exit 1; }
import json, sys
bad = 0
for l in open(sys.argv[1]):
    r = json.loads(l)
    for x in r['violations'][:5]:
        print(x['kind'], x['text'])
    bad += len(r['violations']) + bool(r.get('harness'))
sys.exit(1 if bad else 0)
PY
DEMO
python3 - "$D/meta.json" "$PROP" "$5" "$6" <<'PY'
import json, sys
json.dump({'property': sys.argv[2], 'needs': sys.argv[3], 'what_it_breaks': sys.argv[4]}, open(sys.argv[1], 'w'), indent=1)
PY
ls $D
