#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--replay FILE] [--facet NAME] [--scale X]

Builds what a property's check needs from /repo's working tree, runs it, writes
evidence/<id>.json, and exits 0 (held on everything explored) or 1 (VIOLATION line).
Any other exit status is an error of the check itself.
"""
import atexit, json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from vbuild import VERIF, REPO

KNOWN = os.path.join(VERIF, "known_findings.txt")
TMP = os.path.join(VERIF, "build", "tmp-%d" % os.getpid())
REPLAYS = os.path.join(VERIF, "replays")

def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out

SAN = {"ASAN_OPTIONS": "allocator_may_return_null=1:max_allocation_size_mb=1024:detect_leaks=0:exitcode=99:abort_on_error=0:handle_segv=1:detect_stack_use_after_return=0",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
       "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:second_deadlock_stack=1:report_signal_unsafe=0"}

class Stage:
    """one harness run; libs: name -> variant loaded with dlopen; link: variant linked into the harness"""
    def __init__(self, harness, libs=None, link=None, sources=None, flags="-O2", cxx="g++", wrap=(), tools=None, env=None, args=(), workers=8, extra_link="", kind="pbt", cap=(240, 780), need=(), options=False):
        self.__dict__.update(locals())

class BrokenOption(Exception):
    """a documented build configuration that does not build, although the plain ones do"""
    def __init__(self, variant, log):
        super().__init__(variant)
        self.variant, self.log = variant, log

def libs_of_plain():
    try: return [vbuild.lib(v).so for v in ("kiss-native", "fftw-native", "kiss-o3", "fftw-o3")]
    except vbuild.BuildFailed: return None

def prepare(st):
    """build everything; returns (command prefix, environment)"""
    env = dict(os.environ)
    env.update(SAN)
    env["LC_ALL"] = "C.UTF-8"
    env["OMP_NUM_THREADS"] = "1"
    env["MAGICK_THREAD_LIMIT"] = "1"
    env["VERIF_DIR"], env["VERIF_REPO_DIR"] = VERIF, REPO
    env["TMPDIR"] = env["MAGICK_TEMPORARY_PATH"] = TMP # ImageMagick spools standard input into files a killed process leaves behind
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env.setdefault("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0") # or recycled blocks escape the filling
    env.setdefault("MALLOC_PERTURB_", "93") # uninitialised and freed memory shows the same way in every process
    libs = []
    for name, v in (st.libs or {}).items():
        try: so = vbuild.lib(v).so
        except vbuild.BuildFailed:
            if not st.options or libs_of_plain() is None: raise
            try: so = vbuild.lib(v).so # once more, in case the machine was to blame
            except vbuild.BuildFailed as e: raise BrokenOption(v, e.log)
        libs.append("%s=%s" % (name, so))
    env["RESDET_LIBS"] = ";".join(libs)
    for key, (v, t) in (st.tools or {}).items():
        L = vbuild.lib(v, targets=("lib/libresdet.a", "libresdet.so") + tuple(t))
        env[key] = L.dir
    for n in st.need:
        n(env)
    for k, v in (st.env or {}).items():
        env[k] = v
    if st.kind == "py":
        return ["/opt/veriftools/pyvenv/bin/python3" if not st.cxx.startswith("/") else st.cxx, os.path.join(vbuild.HARNESS, st.harness)], env
    link = vbuild.lib(st.link) if st.link else None
    exe = vbuild.harness(st.harness, tuple(st.sources or (st.harness + ".cpp",)) + ("pbt.cpp",), flags=st.flags, cxx=st.cxx, lib_=link, wrap=st.wrap, link=st.extra_link)
    return [exe], env

def main():
    import checks
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = facet = None
    scale = None
    extra = []
    while args:
        a = args.pop(0)
        if a == "--tier": tier = args.pop(0)
        elif a == "--replay": replay = args.pop(0)
        elif a == "--facet": facet = args.pop(0)
        elif a == "--scale": scale = args.pop(0)
        elif a == "--seed": seed = int(args.pop(0))
        else: raise SystemExit("unknown argument " + a)
    os.chdir(VERIF)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(TMP, exist_ok=True)
    atexit.register(shutil.rmtree, TMP, True)
    t0 = time.time()
    chk = checks.CHECKS[prop]
    # the checks that are soonest done generate more
    if scale is None: scale = "2" if tier == "quick" and prop not in ("C01", "C04", "C20", "C25", "C26") else "1"
    known = known_findings(prop)
    total = dict(evaluations=0, distinct=0, nontrivial=0, discards=0)
    samples, facets, labels, notes, seen = [], {}, {}, [], {}
    violation = None
    for i, st in enumerate(chk["stages"]):
        try: cmd, env = prepare(st)
        except BrokenOption as b:
            path = os.path.join(REPLAYS, "%s-build.replay" % prop)
            with open(path, "w") as f: f.write("configuration %s does not build\n%s" % (b.variant, b.log))
            print("FAILURE in %s/build\nconfiguration %s does not build\n%s\nVIOLATION property=%s replay=%s" % (prop, b.variant, b.log[-3000:], prop, path))
            if replay: raise SystemExit(1)
            total["evaluations"] += 1; total["nontrivial"] += 1; total["distinct"] += 1
            samples.append("configuration " + b.variant)
            violation = dict(violation=path, message="configuration %s does not build" % b.variant)
            break
        res = os.path.join(VERIF, "build", "result-%s-%d-%d.json" % (prop, i, os.getpid()))
        cmd = cmd + list(st.args) + ["--property", prop]
        if replay:
            with open(replay, errors="replace") as f:
                if f.readline().startswith("configuration "): print("all configurations build"); raise SystemExit(0)
            r = subprocess.run(cmd + ["--replay", os.path.abspath(replay)], env=env)
            if r.returncode == 3 and i + 1 < len(chk["stages"]):
                continue
            raise SystemExit(r.returncode)
        cmd += ["--seed", str(seed), "--tier", tier, "--workers", str(st.workers), "--result", res, "--replay-dir", REPLAYS,
                "--cap", str(st.cap[tier == "thorough"]), "--scale", scale, "--known", ",".join(known)]
        if facet: cmd += ["--facet", facet]
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        sys.stdout.write(r.stdout)
        if r.returncode not in (0, 1) or not os.path.exists(res):
            sys.stderr.write(r.stderr[-8000:])
            sys.stderr.write("check %s: harness %s ended with %d\n" % (prop, st.harness, r.returncode))
            raise SystemExit(2)
        j = json.load(open(res))
        os.unlink(res)
        total["evaluations"] += j["evaluations"]; total["distinct"] += j["distinct_nontrivial"]
        total["nontrivial"] += j["nontrivial"]; total["discards"] += j.get("discards", 0)
        samples += j["samples"][:12]
        for k, v in j["facets"].items():
            if v["cases"]: facets[k if k not in facets else "%s (%d)" % (k, i)] = v
        for k, v in j["labels"].items(): labels[k] = labels.get(k, 0) + v
        if j.get("notes"): notes.append(j["notes"])
        for k in j.get("known", []): seen[k.split(" ", 1)[0]] = k
        if j["violation"]:
            violation = j
            break
    for k, what in known.items():
        print("KNOWN-FINDING: property=%s %s%s" % (prop, what, "" if k in seen else " (not reached in this run)"))
    cov = dict(evaluations=total["evaluations"], distinct_nontrivial=total["distinct"], rule=chk["rule"], samples=samples[:24],
               nontrivial=total["nontrivial"], discarded=total["discards"], facets=facets, classes=labels)
    if notes: cov["notes"] = notes
    if seen: cov["known_findings_reached"] = list(seen.values())
    ev = dict(property=prop, tier=tier, seed=seed, level=chk.get("level", "exploration"), coverage=cov,
              assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    if violation:
        ev["coverage"]["violation"] = dict(replay=violation["violation"], message=violation["message"])
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f: json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    print("%s %s seed=%d: %d cases, %d non-trivial distinct, %.1f s%s" % (prop, tier, seed, total["evaluations"], total["distinct"], time.time() - t0, ", VIOLATION" if violation else ", held"))
    if total["evaluations"] == 0:
        raise SystemExit(2)
    raise SystemExit(1 if violation else 0)

if __name__ == "__main__":
    main()
