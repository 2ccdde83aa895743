#!/usr/bin/env python3
"""plant.py [--no-tests] [--check P,...] [--seeds 1,2] ID...: tries planted bugs of /verif/seeded.

Each one is applied to a scratch copy of /repo which is bound over /repo in a private mount
namespace: demo on the unchanged tree, patch, build, stable tests, demo again, then the checks.
Nothing outside of the scratch copy and /verif/build changes. This is a developer tool; no check uses it.
"""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

INNER = r"""
set -u
mount --bind "$SCRATCH" /repo || exit 90
cd /repo
run() { "$@" >"$LOG.$STEP" 2>&1; }
STEP=demo0; rm -rf /tmp/demo-$ID; cp -a "$SEED" /tmp/demo-$ID; run timeout 300 bash /tmp/demo-$ID/demo.sh; echo "demo unchanged: $?"
git apply "$SEED/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 91; }
STEP=build; run bash /opt/vp/build.sh || { echo "DOES NOT BUILD"; tail -20 "$LOG.build"; exit 92; }
if [ "$TESTS" = 1 ]; then
  STEP=test; run bash /opt/vp/test.sh "$LOG.json"
  python3 - "$LOG.json" <<'PY'
import json, sys
b = json.load(open("/opt/vp/BASELINE.json")); b = b.get("passed", b.get("stable", b)) if isinstance(b, dict) else b
if isinstance(b, dict): b = next(v for v in b.values() if isinstance(v, list))
r = json.load(open(sys.argv[1]))
missing = [t for t in b if (t if isinstance(t, str) else t.get("id")) not in set(r["passed"])]
print("tests: %d of %d pass%s" % (len(b) - len(missing), len(b), " BROKEN: " + ", ".join(map(str, missing[:5])) if missing else ""))
PY
fi
STEP=demo1; run timeout 300 bash /tmp/demo-$ID/demo.sh; echo "demo patched: $?"; tail -3 "$LOG.demo1"
rm -rf /tmp/demo-$ID
for P in $PROPS; do for S in $SEEDS; do
  STEP=check-$P-$S; VERIF_SEED=$S VERIF_TIER=quick run timeout 900 python3 /verif/check.py $P --evidence-dir "$SCRATCH-ev"; R=$?
  if [ $R = 1 ] && grep -q "VIOLATION property=$P" "$LOG.$STEP"; then echo "check $P seed $S: CAUGHT"; grep -B12 "VIOLATION property=$P" "$LOG.$STEP" | head -${LINES_SHOWN:-14} | cut -c1-300
  else echo "check $P seed $S: MISSED (exit $R)"; fi
done; done
"""


def main():
    args = sys.argv[1:]
    tests, props, seeds, ids = "1", None, "1", []
    while args:
        a = args.pop(0)
        if a == "--no-tests":
            tests = "0"
        elif a == "--check":
            props = args.pop(0).replace(",", " ")
        elif a == "--seeds":
            seeds = args.pop(0).replace(",", " ")
        else:
            ids.append(a)
    for i in ids:
        seed = os.path.join(VERIF, "seeded", i)
        meta = json.load(open(os.path.join(seed, "meta.json")))
        scratch = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
        print("== %s (%s)" % (i, meta["property"]), flush=True)
        try:
            subprocess.run(["cp", "-a", "/repo/.", scratch], check=True)
            env = dict(os.environ, SCRATCH=scratch, SEED=seed, ID=i, LOG="/tmp/plant-log-" + i, TESTS=tests,
                       PROPS=props if props is not None else meta["property"], SEEDS=seeds)
            subprocess.run(["unshare", "-Urm", "bash", "-c", INNER], env=env)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
            shutil.rmtree(scratch + "-ev", ignore_errors=True)
        sys.stdout.flush()


main()
