"""Builds of /repo's current working tree, in /verif/build (git-ignored).

Sources are copied out of /repo and built with the repository's own Makefile and a
config.mak written here, so that source lists and per-file flags stay the repository's.
Results are cached under a hash of every copied file, the flags and the toolchain.
"""
from concurrent.futures import ThreadPoolExecutor
import fcntl, hashlib, os, shutil, subprocess, sys, threading

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
SRC_EXT = (".c", ".h", ".py", ".mts", ".ts", ".json", ".in", ".txt", ".awk")

def repo_files():
    out = []
    for top in ("lib", "src", "include", "bindings"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(x for x in dirs if x not in ("node_modules", "__pycache__", ".git"))
            for f in sorted(files):
                if f.endswith(SRC_EXT):
                    out.append(os.path.relpath(os.path.join(d, f), REPO))
    out.append("Makefile")
    return out

def tree_hash(top):
    h = hashlib.sha256()
    for d, dirs, files in os.walk(top):
        dirs.sort()
        for f in sorted(files):
            with open(os.path.join(d, f), "rb") as fp: h.update(f.encode() + b"\0" + hashlib.sha256(fp.read()).digest())
    return h.hexdigest()

_hash = None
def source_hash():
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        for f in repo_files():
            h.update(f.encode() + b"\0")
            with open(os.path.join(REPO, f), "rb") as fp:
                h.update(hashlib.sha256(fp.read()).digest())
        _hash = h.hexdigest()
    return _hash

def pkg(what, name):
    r = subprocess.run(["pkg-config", what, name], capture_output=True, text=True)
    return r.stdout.strip() if r.returncode == 0 else ""

BASE = "-std=c99 -DRESDET_EXPORT -DUSE_BUILTIN_SIGNBIT -fPIC -fvisibility=hidden -w"
ASAN = "-Wno-error=implicit-function-declaration -Wno-error=int-conversion -Wno-error=incompatible-function-pointer-types -g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=function -fno-sanitize-recover=undefined"
TSAN = "-Wno-error=implicit-function-declaration -Wno-error=int-conversion -Wno-error=incompatible-function-pointer-types -g -O1 -fsanitize=thread"
ALL = ("libjpeg", "libpng", "magickwand", "ffmpeg")

def variant(name):
    """name: backend[-san][-native][-cX][-iX][-pN][-rN][-noPGM...]; e.g. fftw-asan, kiss-tsan-native"""
    parts = name.split("-")
    v = dict(name=name, backend=parts[0], cc="gcc", cflags="-O2", readers=list(ALL), coeff=None, inter=None, pixel_max=None, rng=None, omit=[], suffix=None)
    for p in parts[1:]:
        if p == "asan": v.update(cc="clang", cflags=ASAN)
        elif p == "tsan": v.update(cc="clang", cflags=TSAN)
        elif p == "fuzz": v.update(cc="clang", cflags=ASAN + " -fsanitize=fuzzer-no-link")
        elif p == "o3": v.update(cflags="-O3 -march=x86-64 -mtune=generic")
        elif p == "native": v["readers"] = []
        elif p == "noff": v["readers"] = [r for r in v["readers"] if r != "ffmpeg"]
        elif p == "nomw": v["readers"] = [r for r in v["readers"] if r != "magickwand"]
        elif p in ("nojpeg", "nopng"): v["readers"] = [r for r in v["readers"] if r != "lib" + p[2:]]
        elif p == "wasm":
            inc = os.path.join(HARNESS, "wasm/include")
            v.update(cc="clang --target=wasm32", readers=[], cflags="-O2 -ffreestanding -fno-builtin -I%s -idirafter /usr/include/x86_64-linux-gnu -idirafter /usr/include -DWASM_LIBC=%s" % (inc, tree_hash(os.path.join(HARNESS, "wasm"))[:12]))
        elif p == "still": v["readers"] = ["libjpeg", "libpng"]
        elif p.startswith("no") and p[2:] in ("PGM", "PFM", "Y4M"): v["omit"].append(p[2:])
        elif p[0] == "c" and p[1:] in ("F", "D", "L"): v["coeff"] = p[1:]
        elif p[0] == "i" and p[1:] in ("F", "D", "L"): v["inter"] = p[1:]
        elif p[0] == "p" and p[1:].isdigit(): v["pixel_max"] = p[1:]
        elif p[0] == "r" and p[1:].isdigit(): v["rng"] = p[1:]
        elif p[0] == "s": v["suffix"] = p[1:]
        else: raise SystemExit("unknown variant part " + p)
    return v

def config_mak(v):
    defs = []
    libs = ["-lm"]
    lines = ["SHARED=1", "SOEXT=so", "CC=" + v["cc"], "AR=" + ("ar" if "wasm" not in v["name"] else shutil.which("llvm-ar-18") or "llvm-ar"), "CFLAGS_LIB=%s %s" % (BASE, v["cflags"]),
             "CFLAGS_CLI=-std=gnu99 -w %s" % v["cflags"], "LDFLAGS=" + " ".join(x for x in v["cflags"].split() if x.startswith("-fsanitize") and "fuzzer" not in x), "TOOLS=resdet stat imgread profile",
             "PREFIX=/nonexistent", "AWK=gawk", "PYTHON=python3"]
    if v["backend"] == "fftw":
        n = {"D": "", "L": "l"}.get(v["coeff"], "f")
        lines += ["HAVE_FFTW=3", "CFLAGS_FFTW=" + pkg("--cflags", "fftw3" + n)]
        libs.append("-lfftw3" + n)
    elif v["coeff"] in ("D", "L"):
        defs.append("-Dkiss_fft_scalar=double")
    for r in v["readers"]:
        if r == "libjpeg":
            lines += ["HAVE_LIBJPEG=2", "CFLAGS_libjpeg=" + pkg("--cflags", "libjpeg")]; libs.append("-ljpeg"); defs.append("-DHAVE_LIBJPEG=2")
        elif r == "libpng":
            lines += ["HAVE_LIBPNG=1", "CFLAGS_libpng=" + pkg("--cflags", "libpng")]; libs.append(pkg("--libs", "libpng") or "-lpng16"); defs.append("-DHAVE_LIBPNG=1")
        elif r == "magickwand":
            cf = " ".join(x for x in pkg("--cflags", "MagickWand").split() if x != "-fopenmp")
            lines += ["HAVE_MAGICKWAND=6", "CFLAGS_MagickWand=" + cf]; libs.append(pkg("--libs", "MagickWand")); defs.append("-DHAVE_MAGICKWAND=6")
        elif r == "ffmpeg":
            m = "libavformat libavcodec libavutil libswscale".split()
            lines += ["HAVE_FFMPEG=1", "CFLAGS_ffmpeg=" + " ".join(pkg("--cflags", x) for x in m)]; libs += [pkg("--libs", x) for x in m]; defs.append("-DHAVE_FFMPEG=1")
    for o in v["omit"]:
        lines.append("OMIT_%s_READER=1" % o); defs.append("-DOMIT_%s_READER" % o)
    if v["coeff"]: lines.append("COEFF_PRECISION=" + v["coeff"])
    if v["inter"]: lines.append("INTER_PRECISION=" + v["inter"])
    if v["pixel_max"]: lines.append("PIXEL_MAX=" + v["pixel_max"])
    if v["rng"]: lines.append("DEFAULT_RANGE=" + v["rng"])
    cli = []
    if v["suffix"]:
        defs.append('-DVERSION_SUFFIX=\\"%s\\"' % v["suffix"]); cli.append('-DVERSION_SUFFIX=\\"%s\\"' % v["suffix"])
    libs = " ".join(x for x in libs if x)
    lines += ["DEFS=" + " ".join(defs), "CLIDEFS=" + " ".join(cli), "LDLIBS=" + libs]
    return "\n".join(lines) + "\n", libs

class Lib:
    pass

def _locked(path):
    os.makedirs(BUILD, exist_ok=True)
    f = open(path + ".lock", "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

class BuildFailed(SystemExit):
    """a build that did not succeed; ends the program with 2 unless it is handled"""
    def __init__(self, what, log):
        super().__init__(2)
        self.what, self.log = what, log

def run(cmd, what, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write("%s failed (%d): %s\n%s\n" % (what, r.returncode, cmd if isinstance(cmd, str) else " ".join(cmd), r.stdout[-6000:]))
        raise BuildFailed(what, r.stdout)
    return r.stdout

def locales(names):
    """Compiles locales (those that can be) into build/locale; returns the directory and the names."""
    d, out = os.path.join(BUILD, "locale"), []
    lock = _locked(d)
    try:
        os.makedirs(d, exist_ok=True)
        def one(n):
            p = os.path.join(d, n)
            if not os.path.isdir(p):
                t = p + ".tmp"
                shutil.rmtree(t, ignore_errors=True)
                subprocess.run(["localedef", "-c", "-i", n.split(".")[0], "-f", n.split(".")[1], t], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if os.path.isdir(t): os.rename(t, p)
            return os.path.isdir(p)
        with ThreadPoolExecutor(8) as ex:
            out = [n for n, ok in zip(names, ex.map(one, names)) if ok]
    finally: lock.close()
    return d, out

def lib(name, targets=("lib/libresdet.a", "libresdet.so")):
    v = variant(name)
    mak, libs = config_mak(v)
    key = hashlib.sha256((source_hash() + mak).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, "lib-%s-%s" % (name, key))
    L = Lib()
    L.dir, L.a, L.so, L.libs, L.key, L.variant = d, os.path.join(d, "lib/libresdet.a"), os.path.join(d, "libresdet.so"), libs.split(), key, v
    lock = _locked(d)
    try:
        todo = [t for t in targets if not os.path.exists(os.path.join(d, t + ".ok"))]
        if todo:
            if not os.path.exists(os.path.join(d, "copied.ok")):
                shutil.rmtree(d, ignore_errors=True)
                for f in repo_files():
                    dst = os.path.join(d, f)
                    os.makedirs(os.path.dirname(dst), exist_ok=True)
                    shutil.copyfile(os.path.join(REPO, f), dst)
                with open(os.path.join(d, "config.mak"), "w") as fp: fp.write(mak)
                with open(os.path.join(d, "lib/resdet.pc"), "w") as fp: fp.write("Name: resdet\nDescription: -\nVersion: 3.1.1\n")
                open(os.path.join(d, "copied.ok"), "w").close()
            env = dict(os.environ, LC_ALL="C.UTF-8")
            run(["make", "-s", "-j8", "-C", d] + todo, "building %s of %s" % (" ".join(todo), name), env=env)
            for t in todo: open(os.path.join(d, t + ".ok"), "w").close()
    finally:
        lock.close()
    return L

def cxx_header():
    """the public header, made acceptable to a C++ compiler (restrict; struct tag hidden behind a const typedef)"""
    import re
    with open(os.path.join(REPO, "include/resdet.h")) as fp: t = fp.read()
    t = re.sub(r"\brestrict\b", "__restrict", t)
    t = re.sub(r"typedef\s+const\s+struct\s+RDMethod\s*\{(.*?)\}\s*RDMethod\s*;", r"struct RDMethod_s {\1}; typedef const RDMethod_s RDMethod;", t, flags=re.S)
    d = os.path.join(BUILD, "include-" + hashlib.sha256(t.encode()).hexdigest()[:16])
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "resdet.h")
    if not os.path.exists(f):
        tmp = "%s.%d.%d" % (f, os.getpid(), threading.get_ident())
        with open(tmp, "w") as fp: fp.write('extern "C" {\n' + t + "\n}\n")
        os.replace(tmp, f)
    return d

def harness(name, sources, flags="", link="", cxx="g++", std="-std=c++17", lib_=None, wrap=()):
    """compile and link a harness; sources are in /verif/harness"""
    h = hashlib.sha256()
    for f in sorted(os.listdir(HARNESS)):
        if f.endswith((".hpp", ".h")) or f in sources:
            with open(os.path.join(HARNESS, f), "rb") as fp: h.update(f.encode() + b"\0" + hashlib.sha256(fp.read()).digest())
    h.update(repr((flags, link, cxx, std, wrap, lib_.key if lib_ else "")).encode())
    with open(os.path.join(REPO, "include/resdet.h"), "rb") as fp: h.update(fp.read())
    key = h.hexdigest()[:20]
    d = os.path.join(BUILD, "harness-%s-%s" % (name, key))
    exe = os.path.join(d, name)
    lock = _locked(d)
    try:
        if not os.path.exists(exe + ".ok"):
            os.makedirs(d, exist_ok=True)
            procs, objs = [], []
            for s in sources:
                o = os.path.join(d, s + ".o")
                objs.append(o)
                procs.append((s, subprocess.Popen([cxx, std, "-g", "-w", "-I" + HARNESS, "-I" + cxx_header()] + flags.split() + ["-c", os.path.join(HARNESS, s), "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            for s, p in procs:
                out, _ = p.communicate()
                if p.returncode:
                    sys.stderr.write("compiling %s failed:\n%s\n" % (s, out[-6000:]))
                    raise SystemExit(2)
            cmd = [cxx] + flags.split() + objs + (["-Wl,--wrap=" + w for w in wrap])
            if lib_: cmd += [lib_.a] + lib_.libs
            cmd += link.split() + ["-lpthread", "-ldl", "-lm", "-o", exe]
            run(cmd, "linking " + name)
            open(exe + ".ok", "w").close()
    finally:
        lock.close()
    return exe

def shared(source):
    """compile one C source of /verif/harness to a shared library"""
    src = os.path.join(HARNESS, source)
    with open(src, "rb") as fp: key = hashlib.sha256(fp.read()).hexdigest()[:20]
    d = os.path.join(BUILD, "shared-%s-%s" % (source, key))
    so = os.path.join(d, source + ".so")
    lock = _locked(d)
    try:
        if not os.path.exists(so):
            os.makedirs(d, exist_ok=True)
            run(["gcc", "-O2", "-w", "-fno-builtin", "-fPIC", "-shared", src, "-o", so + ".tmp", "-ldl"], "compiling " + source)
            os.rename(so + ".tmp", so)
    finally:
        lock.close()
    return so

def engine():
    """the engine as a shared library, for harnesses written in Python"""
    files = ("pbtpy.cpp", "pbt.cpp", "pbt.hpp")
    h = hashlib.sha256()
    for f in files:
        with open(os.path.join(HARNESS, f), "rb") as fp: h.update(fp.read())
    d = os.path.join(BUILD, "engine-" + h.hexdigest()[:20])
    so = os.path.join(d, "libpbt.so")
    lock = _locked(d)
    try:
        if not os.path.exists(so):
            os.makedirs(d, exist_ok=True)
            run(["g++", "-std=c++17", "-O2", "-g", "-w", "-fPIC", "-shared", "-I" + HARNESS] + [os.path.join(HARNESS, f) for f in files[:2]] + ["-o", so + ".tmp", "-lpthread"], "compiling the engine")
            os.rename(so + ".tmp", so)
    finally:
        lock.close()
    return so

def wasm():
    """the JavaScript bindings of the tree, and the library compiled to WebAssembly for them; see harness/wasm"""
    W = os.path.join(HARNESS, "wasm")
    L = lib("kiss-wasm", targets=("lib/libresdet.a",))
    d = os.path.join(BUILD, "js-" + L.key)
    lock = _locked(d)
    try:
        if not os.path.exists(os.path.join(d, "ok")):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            B = os.path.join(L.dir, "bindings/emscripten")
            with open(os.path.join(B, "exported_functions.txt")) as fp: names = [x.strip("\"[]'") for x in fp.read().replace(",", " ").split()]
            run(["clang", "--target=wasm32", "-O2", "-ffreestanding", "-fno-builtin", "-w", "-I" + os.path.join(W, "include"), "-I" + os.path.join(L.dir, "include"), "-c", os.path.join(W, "libc.c"), "-o", os.path.join(d, "libc.o")], "compiling the C library for WebAssembly")
            ld = shutil.which("wasm-ld-18") or shutil.which("wasm-ld")
            run([ld, "--no-entry", "--allow-undefined", "-z", "stack-size=262144", "--export=__stack_pointer"] + ["--export=" + n[1:] for n in names if n[0] == "_"] +
                [os.path.join(d, "libc.o"), L.a, "-o", os.path.join(d, "libresdet.wasm")], "linking for WebAssembly")
            for f in ("exported_functions.txt",): shutil.copyfile(os.path.join(B, f), os.path.join(d, f))
            for f in ("libresdet.mjs", "driver.mjs"): shutil.copyfile(os.path.join(W, f), os.path.join(d, f))
            ts = "/opt/veriftools/node/node_modules/typescript"
            run(["node", "-e", """const ts=require(process.argv[1]),fs=require('fs');
              const r=ts.transpileModule(fs.readFileSync(process.argv[2],'utf8'),{fileName:'resdet.mts',reportDiagnostics:true,compilerOptions:{module:'es2022',target:'es2022',verbatimModuleSyntax:true}});
              if(r.diagnostics.length){console.log(r.diagnostics.map(d=>ts.flattenDiagnosticMessageText(d.messageText,' ')).join('\\n'));process.exit(1)}
              fs.writeFileSync(process.argv[3],r.outputText)""", ts, os.path.join(B, "resdet.mts"), os.path.join(d, "resdet.mjs")], "transpiling resdet.mts")
            open(os.path.join(d, "ok"), "w").close()
    finally:
        lock.close()
    return d

def prune(keep_hours=0):
    shutil.rmtree(BUILD, ignore_errors=True)

if __name__ == "__main__":
    for n in sys.argv[1:]:
        print(lib(n).dir)
