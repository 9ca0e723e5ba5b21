#!/usr/bin/env python3
"""plant_test.py [--checks C01,C02|own|none] [--tier quick] [--jobs N] [id ...]

Tests planted bugs (seeded/<id>) in scratch copies of /repo, mounted over /repo in a user
namespace of their own: the patch applies, builds, passes the stable tests, the demo fails with
it and passes without it, and which checks catch it. Not used by any check.
"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

INNER = r'''
set -u
mount --bind "$W/repo" /repo || exit 90
cd /repo
demo() { ( cd /repo; timeout 300 bash "$W/demo/demo.sh" ) > "$W/demo-$1.log" 2>&1; echo $? > "$W/demo-$1.rc"; }
bash /opt/vp/build.sh > "$W/build0.log" 2>&1 || { echo "base build failed" > "$W/err"; exit 91; }
demo clean
git apply "$W/patch.diff" > "$W/apply.log" 2>&1 || { echo "patch does not apply" > "$W/err"; exit 92; }
bash /opt/vp/test.sh "$W/out.json" > "$W/test.log" 2>&1
demo patched
for c in $CHECKS; do
  ( cd /verif; timeout 900 python3 tools/check.py $c --tier $TIER > "$W/check-$c.log" 2>&1; echo $? > "$W/check-$c.rc" )
done
'''

def one(pid, checks, tier):
    d = os.path.join(VERIF, "seeded", pid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    cs = [meta["property"]] if checks == "own" else [] if checks == "none" else checks.split(",")
    man = {c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]}
    cs = [c for c in cs if c in man]
    w = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        shutil.copytree(d, w + "/demo", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        shutil.copy(d + "/patch.diff", w)
        subprocess.run(["unshare", "-Urm", "bash", "-c", INNER], env=dict(os.environ, W=w, CHECKS=" ".join(cs), TIER=tier))
        rd = lambda f: open(os.path.join(w, f), errors="replace").read() if os.path.exists(os.path.join(w, f)) else ""
        out = [pid]
        if rd("err"): return pid, "BAD: " + rd("err").strip() + rd("apply.log")[-500:], False
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        try: passed = set(json.loads(rd("out.json"))["passed"])
        except Exception: passed = set()
        missing = sorted(stable - passed)
        bad = []
        if missing: bad.append("fails %d stable tests %s" % (len(missing), missing[:6]))
        if rd("demo-clean.rc").strip() != "0": bad.append("demo fails unpatched: " + rd("demo-clean.log")[-400:])
        if rd("demo-patched.rc").strip() in ("0", ""): bad.append("demo passes patched " + rd("demo-patched.log")[-300:])
        res = []
        for c in cs:
            rc = rd("check-%s.rc" % c).strip(); log = rd("check-%s.log" % c)
            caught = rc == "1" and "VIOLATION property=%s " % c in log
            last = log.strip().splitlines()[-1] if log.strip() else ""
            fl = [l for l in log.splitlines() if l.startswith("FAILURE")]
            res.append("%s:%s" % (c, "CAUGHT" if caught else "miss" if rc == "0" else "ERROR rc=" + rc) + (" " + fl[0] if fl else "") + (" (" + last.split(" s")[0].split(", ")[-1] + "s)" if last else "") + ("\n" + log[-800:] if rc not in ("0", "1") else ""))
        return pid, ("BAD " + "; ".join(bad) if bad else "ok") + "  " + " | ".join(res), not bad
    finally:
        shutil.rmtree(w, ignore_errors=True)

def main():
    a = sys.argv[1:]; checks, tier, jobs, ids = "own", "quick", 2, []
    while a:
        x = a.pop(0)
        if x == "--checks": checks = a.pop(0)
        elif x == "--tier": tier = a.pop(0)
        elif x == "--jobs": jobs = int(a.pop(0))
        else: ids.append(x)
    ids = ids or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for pid, text, ok in ex.map(lambda i: one(i, checks, tier), ids):
            print(pid, text, flush=True)
main()
