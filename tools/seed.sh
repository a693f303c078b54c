#!/bin/bash
# seed.sh NAME PROP [notest]: the change is the working diff of /repo (or seeded/NAME/patch.diff if that exists and the tree is clean);
# demo.cpp / demo.sh lie in seeded/NAME. Confirms: builds, tests pass, demo fails with and passes without; runs the check. Leaves /repo clean.
N=$1; P=$2; D=/verif/seeded/$N
if [ -n "$(git -C /repo status --short)" ]; then git -C /repo diff > $D/patch.diff; else git -C /repo apply $D/patch.diff || exit 1; fi
if [ ! -f $D/demo.sh ]; then cat > $D/demo.sh <<'X'
#!/bin/bash
# Builds demo.cpp (beside this file) against the built library and runs it.
set -u
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -O1 -DNDEBUG -I "$PWD" "$D/demo.cpp" -o "$W/demo" "$PWD/_build/libblend2d.so" -Wl,-rpath,"$PWD/_build" -lpthread || exit 0
timeout 120 "$W/demo" "$W"
X
fi
bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1 && echo "build ok" || { echo BUILD FAILED; tail -5 /tmp/seed_build.log; git -C /repo checkout -- .; exit 1; }
(cd /repo && bash $D/demo.sh > /tmp/seed_demo.log 2>&1); echo "demo with patch: $? (want nonzero)"; tail -2 /tmp/seed_demo.log
if [ "${3:-}" != notest ]; then bash /opt/vp/test.sh /tmp/seed_test.json > /dev/null 2>&1; python3 -c "
import json; b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed_test.json')); s=set(b.get('passed') or b.get('stable') or []); print('tests:', len(t['passed']), 'passed; baseline lost:', sorted(s-set(t['passed']))[:5])"; fi
CMD=$(python3 -c "import json;m=json.load(open('/verif/MANIFEST.json'));print([c['quick_cmd'] for c in m['checks'] if c['property']=='$P'][0])")
(cd /verif && VERIF_TIER=quick VERIF_SEED=1 $CMD > /tmp/seed_check.log 2>&1); echo "check $P: exit $? (want 1)"; grep -m3 "VIOLATION\|key=" /tmp/seed_check.log | cut -c1-250
git -C /repo checkout -- .; bash /opt/vp/build.sh > /dev/null 2>&1
(cd /repo && bash $D/demo.sh > /tmp/seed_demo.log 2>&1); echo "demo without patch: $? (want 0)"
