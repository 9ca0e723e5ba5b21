# C25: the JavaScript bindings give the C library's answers.
# The bindings run in node over the library compiled to WebAssembly (harness/wasm); driver.mjs repeats each step of a
# case by direct calls in the same module.
import base64, json, os, struct, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbt
from pbt import check, Fail

worker = None
def node(case):
    global worker
    if worker is None or worker.uses > 150 or worker.poll() is not None:
        if worker is not None:
            worker.stdin.close(); worker.wait()
        worker = subprocess.Popen(["node", "--expose-gc", os.path.join(os.environ["RESDET_JS"], "driver.mjs")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        worker.uses = 0
    worker.uses += 1
    try:
        worker.stdin.write(json.dumps(case) + "\n")
        worker.stdin.flush()
        line = worker.stdout.readline()
    except BrokenPipeError:
        line = ""
    if not line:
        r = worker.wait()
        worker = None
        raise Fail("node ended with %d" % r)
    return json.loads(line)

METHODS = ["sign", "mag", "orig", "zerox"]
def dim(s, most): return 1 + (s.upto(most - 1) if s.chance(60) else s.upto(min(most, 8) - 1))
def image(s, n, finite=True):
    k = s.upto(5)
    r = s.bulk()
    if k == 0: a = [r.randrange(256) for _ in range(n)]
    elif k == 1: a = [r.random() for _ in range(n)]
    elif k == 2: a = [r.choice((0, 1)) for _ in range(n)]
    elif k == 3: a = [r.gauss(0, 1e6) for _ in range(n)]
    else: a = [r.gauss(0, 1) for _ in range(n)]
    if not finite and n: a[s.upto(n - 1)] = s.of([float("nan"), float("inf"), float("-inf")])
    return a
def px(a): return base64.b64encode(struct.pack("<%df" % len(a), *a)).decode()
def params(s, refused):
    """None, or a parameter object; with refused, one of them is not acceptable"""
    if not refused and s.chance(15): return None if s.chance(50) else {}
    d = {}
    for k in ("range", "threshold", "compression_filter"):
        if not s.chance(85 if k != "compression_filter" else 35): continue
        if k == "range": d[k] = s.of([1, 2, 3, 1, 2, 4, 5, 8, 30, 2.5, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**53, "inf"]) if s.chance(30) else 1 + s.upto(3)
        elif k == "threshold": d[k] = s.of([0, 0.25, 1, 0.5, s.upto(1000) / 1000, 0, 0, 0, 0, 0.1])
        else: d[k] = s.of([0, 1, 2, 3, 4, 8, 31])
    if refused:
        k = s.of(["range", "threshold", "compression_filter", "x"])
        if k == "range": d[k] = s.of([0, 0.5, -1, "nan", "undefined", -2**32, "-inf"])
        elif k == "threshold": d[k] = s.of([-0.001, 1.001, "nan", "inf", "-inf", "undefined", 2])
        elif k == "compression_filter": d[k] = s.of([-1, 32, 33, 255, 256, 258, 2**32, 2**32 + 4, "inf"])
        else: d[s.of(["rnage", "Range", "compressionFilter", "filter", "", "0", "method"])] = 1
    if s.chance(50): d = dict(reversed(list(d.items())))
    return d
def method(s):
    k = s.upto(6)
    d = {"method": METHODS[k - 3] if k >= 3 else None}
    if k == 1: del d["method"]
    if s.chance(30): d["listed"] = True
    return d
def failing(s, on):
    return {"fail": 1 + s.upto(s.of([3, 7, 14, 24])), "all": s.chance(40)} if on else {}
def a_detect(s, most, inject=False, faults=True):
    w, h, n = dim(s, most), dim(s, most), 1 + s.upto(2) if s.chance(35) else 1
    kind = s.weighted([70, 8, 8, 5, 5, 4]) if faults else 0
    d = {"op": "detect", "n": n, "w": w, "h": h, "params": params(s, kind == 1)}
    d.update(method(s))
    if s.chance(20): d["offset"] = 1 + s.upto(6)
    d["px"] = px(image(s, w * h * n, kind != 2))
    if kind == 3: d["n"] = 0
    if kind == 4: d[s.of("wh")] = s.of([0, "nan", 0.5, "undefined"])
    if kind == 5: d["w"] = s.of([2**31, 2**32 - 1, 2**32, 2**32 + 1, -1, 2**40, "inf", 1000000000]); d["h"] = s.of([1, 2**32 - 1, 2, 2**20])
    if kind == 5 and not big(d): d["w"] = 2**32 - 1
    if d["params"] is None and s.chance(40): d["short"] = True
    d.update(failing(s, inject))
    return d
def big(d):
    w = d["w"]
    return w == "inf" or w > 2**30
def a_create(s, most, slot, inject=False):
    w, h = dim(s, most), dim(s, most)
    kind = s.weighted([80, 8, 4, 4])
    d = {"op": "create", "slot": slot, "w": w, "h": h, "params": params(s, kind == 1)}
    d.update(method(s))
    if kind == 2: d[s.of("wh")] = s.of([0, "nan", "undefined"])
    if kind == 3: d["w"] = s.of([2**32 - 1, 2**32, 2**32 + 1, 2**40, "inf"])
    d.update(failing(s, inject))
    return d, kind == 0

def run(c, case, what):
    r = node(case)
    c.desc(what)
    if r["bad"]: raise Fail(r["bad"])
    return r["info"]
def describe(steps):
    return "; ".join("%s %s" % (x["op"], {k: v for k, v in x.items() if k not in ("op", "px", "names")}) for x in steps)

def detect(s, c):
    steps = [a_detect(s, 40 if c.thorough() else 24)]
    i = run(c, {"steps": steps, "collect": False}, describe(steps))
    c.label("refused" if i["errors"] else "found" if i["found"] else "nothing found")
    if i["errors"] or i["found"]: c.nontrivial(json.dumps(steps).encode())

def history(s, c, inject, grow, most=16):
    steps, slots = [], {}
    on = lambda: inject and s.chance(45)
    n = 2 + s.upto(18 if not inject else 8)
    if grow and s.chance(70): steps.append({"op": "grow", "on": True})
    for _ in range(n):
        k = s.weighted([14, 42, 30, 4, 6, 8])
        slot = s.upto(2)
        if k == 0 or (k in (1, 2) and not slots):
            f = on()
            d, ok = a_create(s, most, slot, f)
            steps.append(d)
            if ok and not f: slots[slot] = (d["w"], d["h"])
            elif ok:
                d2 = {k: v for k, v in d.items() if k not in ("fail", "all")} # and again without failure
                steps.append(d2); slots[slot] = (d["w"], d["h"])
        elif k == 1:
            if slot not in slots: slot = sorted(slots)[0]
            w, h = slots[slot]
            d = {"op": "analyze", "slot": slot, "px": px(image(s, w * h, not s.chance(12)))}
            d.update(failing(s, on()))
            steps.append(d)
        elif k == 2:
            if slot not in slots: slot = sorted(slots)[0]
            d = {"op": "results", "slot": slot}
            d.update(failing(s, on()))
            steps.append(d)
        elif k == 3: steps.append({"op": "drop", "slot": slot}); slots.pop(slot, None)
        elif k == 4: steps.append({"op": "gc"})
        else: steps.append(a_detect(s, most, on()))
    i = run(c, {"steps": steps, "collect": s.chance(50), "fresh": grow}, describe(steps))
    c.label("%s results" % ("several" if i["results"] > 1 else "one" if i["results"] else "no"))
    if i["hit"]: c.label("allocations failed")
    if inject and i["hit"] or not inject and (i["results"] or grow): c.nontrivial(json.dumps(steps).encode())

def analysis(s, c): history(s, c, False, False)
def memory(s, c): history(s, c, True, s.chance(10))
def growth(s, c):
    if s.chance(50): return history(s, c, False, True)
    # images larger than the module's memory has room for
    steps = []
    if s.chance(20): steps.append({"op": "grow", "on": True})
    for _ in range(1 + s.upto(2)):
        w, h = 1 + s.upto(400), 1 + s.upto(400)
        if s.chance(50):
            d = {"op": "detect", "n": 1, "w": w, "h": h, "params": {"range": 1 + s.upto(3)}, "method": s.of(METHODS)}
            d["px"] = px(image(s, w * h))
            steps.append(d)
        else:
            steps.append({"op": "create", "slot": 0, "w": w, "h": h, "params": {"range": 1}, "method": "sign"})
            steps.append({"op": "analyze", "slot": 0, "px": px(image(s, w * h))})
            steps.append({"op": "results", "slot": 0})
    i = run(c, {"steps": steps, "collect": True, "fresh": True}, describe(steps))
    c.label("large images")
    c.nontrivial(json.dumps(steps).encode())

LENGTHS = [128, 129, 255, 256, 257, 300, 1000, 1025, 4096, 10000, 32767 + 33, 32768, 32832, 40000, 65536, 65600, 66000, 70000, 99000]
def extents(s, c):
    # thin images whose sizes and lists are long
    w, h = s.of(LENGTHS), 1 + s.upto(1)
    if s.chance(50): w, h = h, w
    # a sign change at every position, or here and there
    a = [((i // (1 if w > h else w)) % 7 + 1) * 1.5 for i in range(w * h)] if s.chance(20) else image(s, w * h)
    d = {"w": w, "h": h, "params": {"range": 1 + s.upto(1), "threshold": s.of([0, 0, 0, 0.5])}, "method": s.of(METHODS)}
    if s.chance(50): steps = [dict(d, op="detect", n=1, px=px(a))]
    else:
        steps = [dict(d, op="create", slot=0), {"op": "analyze", "slot": 0, "px": px(a)}, {"op": "results", "slot": 0}]
        if s.chance(50): steps = steps[:2] + steps[1:] # twice
    run(c, {"steps": steps, "collect": True, "fresh": s.chance(30)}, describe(steps))
    c.label("long images")
    c.nontrivial(json.dumps(steps).encode())

def tables(s, c):
    names = [s.of(METHODS + ["", "Sign", "sign ", "sig", "signs", "zero", "\u00e9", "origin\u0000al", "default", "x" * (1 + s.upto(200))]) for _ in range(1 + s.upto(5))]
    steps = [{"op": "tables", "names": [x for x in names if "\0" not in x], "errors": [s.upto(7) for _ in range(3)]}]
    if s.chance(50): steps.append(a_detect(s, 8)); steps.append(steps[0])
    run(c, {"steps": steps, "fresh": s.chance(20)}, describe(steps))
    c.nontrivial(json.dumps(steps).encode())

pbt.main([("detect", detect, 12000, 150000, 60), ("analysis", analysis, 6000, 70000, 60), ("memory", memory, 6000, 70000, 60), ("growth", growth, 300, 8000, 60), ("extents", extents, 200, 5000, 60), ("tables", tables, 1000, 10000, 60)])
