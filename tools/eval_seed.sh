#!/bin/bash
# Evaluate planted changes in scratch copies of /repo and /verif (bind-mounted in a private mount namespace):
#   tools/eval_seed.sh [-n: no build/test/demo] ID [CHECK-ID...]
# Prints one line: ID build/tests/demo-clean/demo-patched and the exit status of each check (default: the check of meta.json).
full=1; [ "$1" = -n ] && { full=0; shift; }
id=$1; shift
seed=$(realpath "${SEEDROOT:-/verif/seeded}")/$id
S=$(mktemp -d /tmp/evalseed.XXXXXX); trap 'rm -rf "$S"' EXIT
cp -a /repo "$S/repo"; mkdir "$S/verif"; git -C /verif archive HEAD | tar -x -C "$S/verif"; (cd "${VERIFSRC:-/verif}" && cp -a check.py checks.py harness known_findings.json "$S/verif/")
cp -a "$seed" "$S/seed"
prop=$(python3 -c "import json;print(json.load(open('$seed/meta.json'))['property'])")
checks="${*:-$prop}"
git -C "$S/repo" checkout -q -- . 
cat > "$S/run.sh" <<IN
mount --bind $S/repo /repo && mount --bind $S/verif /verif || exit 9
cd /repo; r="$id:"
if [ $full = 1 ]; then
  bash /opt/vp/build.sh > $S/build0.log 2>&1 || r="\$r BASEBUILD-FAILED"
  bash $S/seed/demo.sh > $S/demo0.log 2>&1; r="\$r demo-clean=\$?"
fi
git apply $S/seed/patch.diff || { echo "\$r PATCH-DOES-NOT-APPLY"; exit; }
if [ $full = 1 ]; then
  bash /opt/vp/build.sh > $S/build.log 2>&1 && r="\$r build=ok" || r="\$r build=FAILED"
  bash $S/seed/demo.sh > $S/demo1.log 2>&1; r="\$r demo-patched=\$?"
  timeout 900 bash /opt/vp/test.sh $S/out.json > $S/test.log 2>&1
  r="\$r tests=\$(python3 - <<'PY'
import json
o=set(json.load(open('$S/out.json'))['passed']); b=json.load(open('/opt/vp/BASELINE.json'))
st=b.get('stable_pass') or b.get('passed') or b.get('stable') or b
m=sorted(set(st)-o); print('pass' if not m else 'FAIL:'+','.join(m[:4]))
PY
)"
fi
cd /verif
for c in $checks; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py \$c --tier quick > $S/check.\$c.log 2>&1; rc=\$?
  r="\$r \$c=\$rc"; [ \$rc = 1 ] && r="\$r[\$(grep -m1 VIOLATION $S/check.\$c.log | cut -c1-60)]"
done
echo "\$r"
IN
unshare -m bash "$S/run.sh"
[ -n "$KEEP" ] && { mkdir -p "$KEEP"; cp "$S"/*.log "$KEEP"/; }
exit 0
