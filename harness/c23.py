# C23: the Python bindings give the C library's answers.
import array, ctypes, errno, gc, io, math, os, pathlib, struct, sys, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbt
from pbt import check, Fail
warnings.simplefilter("ignore")
sys.unraisablehook = lambda *a: None
import numpy as np
import PIL.Image
import resdet, resdet_numpy, resdet_PIL

# the library itself, by declarations of our own
C = ctypes.CDLL(os.environ["RESDET_SO"])
P, S, I = ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int
class Res(ctypes.Structure): _fields_ = [("index", S), ("confidence", ctypes.c_float)]
def fn(name, res, *args):
    f = getattr(C, name); f.restype, f.argtypes = res, list(args)
    return f
c_get_method = fn("resdet_get_method", P, ctypes.c_char_p)
c_params = fn("resdet_alloc_default_parameters", P)
c_range = fn("resdet_parameters_set_range", I, P, S)
c_threshold = fn("resdet_parameters_set_threshold", I, P, ctypes.c_float)
c_filter = fn("resdet_parameters_set_compression_filter", I, P, ctypes.c_uint8)
c_detect = fn("resdetect", I, P, S, S, S, P, P, P, P, P, P)
c_create = fn("resdet_create_analysis", P, P, S, S, P, P)
c_analyze = fn("resdet_analyze_image", I, P, P)
c_results = fn("resdet_analysis_results", I, P, P, P, P, P)
c_destroy = fn("resdet_destroy_analysis", None, P)
c_version = fn("resdet_libversion", ctypes.c_char_p)
c_str = fn("resdet_error_str", ctypes.c_char_p, I)
c_default_range = fn("resdet_default_range", S)
c_readers = fn("resdet_list_image_readers", ctypes.POINTER(ctypes.c_char_p))
libc = ctypes.CDLL(None)
libc.free.argtypes = [P]
class MallInfo(ctypes.Structure): _fields_ = [(n, S) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
libc.mallinfo2.restype = MallInfo

METHODS = ["sign", "mag", "orig", "zerox"]
EXC = {1: MemoryError, 2: resdet.InternalError, 3: resdet.InvalidImageError, 4: resdet.UnsupportedFormatError, 5: resdet.ImageTooBigErrror, 6: resdet.ParameterError, 7: resdet.NoImagesError}

class CParams:
    def __init__(self, d):
        self.p, self.error = None, 0
        if d:
            self.p = c_params()
            for k, f in (("range", c_range), ("threshold", c_threshold), ("compression_filter", c_filter)):
                if k in d: self.error = self.error or f(self.p, d[k])
    def __del__(self): libc.free(self.p)

def outputs():
    return [P(), S(), P(), S()]
def take(e, o):
    if e: return e, None
    r = []
    for i in (0, 2):
        a = ctypes.cast(o[i], ctypes.POINTER(Res))
        r.append([(a[k].index, a[k].confidence) for k in range(o[i + 1].value)])
        libc.free(o[i])
    return 0, {"widths": r[0], "heights": r[1]}
def method_ptr(m): return c_get_method(m.encode()) if m else None
def expected(px, n, w, h, method, params):
    px = np.ascontiguousarray(px, dtype=np.float32)
    q, o = CParams(params), outputs()
    if q.error: return q.error, None
    return take(c_detect(px.ctypes.data_as(P), n, w, h, *[ctypes.byref(x) for x in o], method_ptr(method), q.p), o)
class CAnalysis:
    def __init__(self, w, h, method, params):
        q, e = CParams(params), I(0)
        self.a = None
        if q.error: self.error = q.error; return
        self.a = c_create(method_ptr(method), w, h, q.p, ctypes.byref(e))
        self.error = e.value
    def analyze(self, px):
        px = np.ascontiguousarray(px, dtype=np.float32)
        return c_analyze(self.a, px.ctypes.data_as(P))
    def results(self):
        o = outputs()
        return take(c_results(self.a, *[ctypes.byref(x) for x in o]), o)
    def __del__(self): c_destroy(self.a)

def plain(r):
    check(isinstance(r, dict) and set(r) == {"widths", "heights"}, "result %r" % (r,))
    for k in r:
        check(isinstance(r[k], list) and all(isinstance(x, resdet.Resolution) for x in r[k]), "result %r" % (r,))
    return {k: [(x.index, x.confidence) for x in r[k]] for k in r}
def outcome(f):
    """(None, result) or (exception, None)"""
    try:
        return None, f()
    except (AssertionError, pbt.Fail):
        raise
    except Exception as e:
        return e, None
def agree(got, want, what):
    exc, r = got
    e, w = want
    if e:
        check(exc is not None, "%s: %r instead of an exception for error %d" % (what, r, e))
        if e > 0:
            check(type(exc) is EXC[e], "%s: %r instead of %s" % (what, exc, EXC[e].__name__))
            check(str(exc) == c_str(e).decode(), "%s: message %s" % (what, exc))
        else:
            check(isinstance(exc, OSError) and exc.errno == -e, "%s: %r instead of errno %d" % (what, exc, -e))
    else:
        if exc is not None: raise Fail("%s: %s: %s" % (what, type(exc).__name__, exc))
        p = plain(r)
        check(p == w, "%s: %s instead of %s" % (what, p, w))

# inputs
def dim(s, most): return 1 + (s.upto(most - 1) if s.chance(60) else s.upto(min(most, 8) - 1))
LENGTHS = [128, 255, 256, 257, 300, 1000, 1024, 1025, 1030, 2048, 4100, 10000, 32768, 32832, 65536, 65600, 66000, 70000]
def extents(s, w, h):
    """rarely, a thin image whose sizes and lists are long"""
    if s.upto(299) != 299: return w, h
    l, k = s.of(LENGTHS), 1 + s.upto(1)
    return (l, k) if s.chance(50) else (k, l)
def params(s, always=False):
    if not always and s.chance(12): return {}
    d = {}
    order = ["range", "threshold", "compression_filter"]
    if s.chance(50): order.reverse()
    for k in order:
        if not always and not s.chance(85 if k != 'compression_filter' else 30): continue
        if k == "range": d[k] = s.of([1, 2, 3, 4, 1, 2, 3, 5, 6, 8, 12, 20, 100, 2**31, 2**63])
        elif k == "threshold": d[k] = s.of([0, 0.0, 0, 1, 0, 0.5, 0.25, 0.1, 0.55, s.upto(1000) / 1000])
        else: d[k] = s.of([0, 1, 2, 3, 4])
    return d
def values(s, n, kind):
    """float32 pixels, as a flat float64 array exactly representable in the carrier"""
    r = s.bulk()
    if kind == "u8": a = [r.randrange(256) for _ in range(n)]
    elif kind == "bool": a = [r.randrange(2) for _ in range(n)]
    elif kind == "small": a = [r.randrange(-100, 101) for _ in range(n)]
    elif kind == "i7": a = [r.randrange(128) for _ in range(n)]
    elif kind == "frac": a = [r.random() for _ in range(n)]
    else: a = [r.gauss(0, 10) for _ in range(n)]
    return np.array(a, dtype=np.float64)
DTYPES = [("float32", "g"), ("float64", "g"), ("float16", "small"), ("uint8", "u8"), ("int8", "i7"), ("uint16", "u8"), ("int16", "small"), ("int32", "small"), ("uint32", "u8"),
          ("int64", "small"), ("uint64", "u8"), ("bool", "bool"), (">f4", "g"), (">f8", "g"), (">u2", "u8"), (">i4", "small"), ("longdouble", "frac")]
def layout(s, a):
    """the same array in another memory layout"""
    k = s.upto(9)
    if k == 1: return "Fortran order", np.asfortranarray(a)
    if k == 2: return "transposed", np.ascontiguousarray(np.swapaxes(a, -1, -2)).swapaxes(-1, -2)
    if k == 3:
        b = np.zeros(a.shape[:-1] + (a.shape[-1] * 2,), dtype=a.dtype); b[..., ::2] = a
        return "every other column", b[..., ::2]
    if k == 4: return "mirrored twice", np.ascontiguousarray(a[..., ::-1, ::-1])[..., ::-1, ::-1]
    if k == 5:
        b = np.zeros(tuple(x + 3 for x in a.shape), dtype=a.dtype); v = b[tuple(slice(1, 1 + x) for x in a.shape)]; v[...] = a
        return "part of a larger array", v
    if k == 6:
        b = a.copy(); b.flags.writeable = False
        return "read-only", b
    if k == 7:
        b = np.zeros((a.shape[-2] * 2,) + a.shape[:-2] + (a.shape[-1],), dtype=a.dtype) if a.ndim == 3 else np.zeros((a.shape[0] * 2, a.shape[1]), dtype=a.dtype)
        if a.ndim == 3:
            v = np.moveaxis(b[::2], 0, 1); v[...] = a
            return "frames interleaved", v
        b[::2] = a
        return "every other row", b[::2]
    if k == 8:
        raw = bytearray(a.nbytes + 1)
        v = np.frombuffer(raw, dtype=a.dtype, count=a.size, offset=1).reshape(a.shape); v[...] = a
        return "unaligned", v
    return "C order", np.ascontiguousarray(a)
def f32(a): return np.asarray(a).astype(np.float32)

def numpy_carrier(s, n, w, h, three):
    dt, kind = s.of(DTYPES)
    a = values(s, n * w * h, kind).astype(dt)
    a = a.reshape((n, h, w) if three else (h, w))
    if s.chance(4) and np.dtype(dt).kind == "f":
        a.reshape(-1)[s.upto(a.size - 1)] = s.of([math.nan, math.inf, -math.inf])
    how, b = layout(s, a)
    return "numpy %s %s %s" % (dt, b.shape, how), b, f32(a)
PIL_MODES = ["L", "F", "I", "1", "RGB", "I;16", "P", "RGBA", "CMYK", "YCbCr"]
def pil_frame(s, w, h, mode):
    r = s.bulk()
    if mode == "F":
        a = np.array([r.gauss(0, 5) for _ in range(w * h)], dtype=np.float32).reshape(h, w)
        return PIL.Image.fromarray(a), a
    if mode == "I":
        a = np.array([r.randrange(-1000, 100000) for _ in range(w * h)], dtype=np.int32).reshape(h, w)
        return PIL.Image.fromarray(a), f32(a)
    if mode == "I;16":
        a = np.array([r.randrange(65536) for _ in range(w * h)], dtype=np.uint16).reshape(h, w)
        return PIL.Image.fromarray(a), f32(a)
    if mode == "1":
        a = np.array([r.randrange(2) * 255 for _ in range(w * h)], dtype=np.uint8).reshape(h, w)
        return PIL.Image.fromarray(a).convert("1"), f32(a)
    if mode == "L":
        a = np.array([r.randrange(256) for _ in range(w * h)], dtype=np.uint8).reshape(h, w)
        return PIL.Image.fromarray(a), f32(a)
    rgb = PIL.Image.fromarray(np.frombuffer(r.randbytes(w * h * 3), dtype=np.uint8).reshape(h, w, 3))
    im = rgb.convert(mode) if mode != "RGB" else rgb
    e = np.asarray(im.convert("F"))
    if mode == "RGB":
        a = np.asarray(rgb).astype(np.float64)
        check(np.allclose(e, (a[..., 0] * 299 + a[..., 1] * 587 + a[..., 2] * 114) / 1000, atol=.01), "Pillow's own conversion")
    return im, np.array(e)

def pointer(a):
    """(pointer, what keeps it alive)"""
    buf = (ctypes.c_float * a.size)(*[float(x) for x in a.reshape(-1)])
    return ctypes.cast(buf, ctypes.POINTER(ctypes.c_float)), buf
def fill(buf, a):
    for i, v in enumerate(a.reshape(-1)): buf.data[i] = float(v)

def flat_carrier(s, n, w, h):
    a = values(s, n * w * h, s.of(["g", "frac", "u8", "small"]))
    px = f32(a)
    if s.chance(4): px[s.upto(px.size - 1)] = s.of([math.nan, math.inf, -math.inf])
    k = s.upto(5)
    if k == 0: return "list", [float(x) for x in px], px
    if k == 1 and not np.isnan(px).any() and not np.isinf(px).any() and (px == np.round(px)).all(): return "list of integers", [int(x) for x in px], px
    if k == 2 or k == 1: return "array", array.array("f", [float(x) for x in px]), px
    if k == 3: return "pointer", pointer(px), px
    if k == 4: return "list of doubles", [float(x) for x in (a if np.isfinite(px).all() else px)], px
    b = resdet.ImageBuffer.with_dimensions(w, h, n)
    fill(b, px)
    return "ImageBuffer", b, px

def call(s, f, args, method, q):
    """positional or by keyword, leaving out what is default"""
    m = resdet.Method.get(method) if method else None
    k = s.upto(2)
    if k == 0: return lambda: f(*args, m, q)
    kw = {}
    if m is not None or k == 1: kw["method"] = m
    if q or k == 1: kw["parameters"] = q
    return lambda: f(*args, **kw)

def detect(s, c):
    w, h, n = dim(s, 24), dim(s, 24), 1 + (s.upto(2) if s.chance(40) else 0)
    w, h = extents(s, w, h)
    method, q = s.of([None] + METHODS), params(s)
    qq = dict(q)
    kind = s.weighted([4, 5, 3])
    if kind == 0:
        name, x, px = flat_carrier(s, n, w, h)
        if name != "ImageBuffer" and s.chance(4): # refused arguments
            bad = s.upto(2)
            if bad == 0: n = 0
            elif bad == 1: w = 0
            else: h = 0
        keep = None
        if name == "pointer": x, keep = x
        args = (x,) if name == "ImageBuffer" else (x, n, w, h)
        f = resdet.resdetect
    elif kind == 1:
        three = n > 1 or s.chance(30)
        name, x, px = numpy_carrier(s, n, w, h, three)
        before = x.copy()
        args, f = (x,), s.of([resdet_numpy.resdetect, resdet.resdetect])
    else:
        mode = s.of(PIL_MODES)
        n = 1
        x, px = pil_frame(s, w, h, mode)
        name, args, f = "PIL " + mode, (x,), s.of([resdet_PIL.resdetect, resdet.resdetect])
    c.desc("%s %d x %dx%d method=%s %s" % (name, n, w, h, method, q))
    c.label(name.split()[0])
    want = expected(px, n, w, h, method, q)
    agree(outcome(call(s, f, args, method, q)), want, "resdetect")
    check(q == qq, "the parameters were changed to %r" % q)
    if kind == 1: check(x.tobytes() == before.tobytes(), "the array was changed")
    if want[0] or len(want[1]["widths"]) + len(want[1]["heights"]) > 2: c.nontrivial(px.tobytes() + repr((w, h, n, method, q, name)).encode())

def animated(s, c):
    fmt = s.of(["TIFF", "GIF", "PNG", "TIFF"])
    mode = s.of(["L", "F", "I;16", "RGB"]) if fmt == "TIFF" else "L" if fmt == "GIF" else s.of(["L", "RGB"])
    w, h, n = 2 + s.upto(14), 2 + s.upto(14), 1 + s.upto(3)
    sizes = [(w, h)] * n
    if fmt == "TIFF" and n > 1 and s.chance(15): # pages of other sizes
        k = 1 + s.upto(n - 2)
        sizes[k] = s.of([(w, h + 1 + s.upto(20)), (max(1, w - 1), h), (w, max(1, h - 1)), (h, w)])
    frames = [pil_frame(s, a, b, mode)[0] for a, b in sizes]
    path = os.path.join(c.scratch(), "a." + fmt.lower())
    frames[0].save(path, format=fmt, save_all=True, append_images=frames[1:], **({"duration": [100 + 10 * i for i in range(n)]} if fmt != "TIFF" else {}))
    method, q = s.of([None] + METHODS), params(s)
    px = []
    with PIL.Image.open(path) as im:
        count = getattr(im, "n_frames", 1)
        start = s.upto(count - 1) if s.chance(40) else 0
        for i in range(start, count):
            im.seek(i)
            px.append(np.array(im.convert("F")))
    if fmt == "TIFF" and mode != "RGB":
        for i, a in enumerate(px): check(np.array_equal(a, np.array(frames[start + i].convert("F"))), "Pillow's round trip")
    c.desc("%s %s frames=%s from %d method=%s %s" % (fmt, mode, [a.shape for a in px], start, method, q))
    c.label(fmt)
    with PIL.Image.open(path) as im:
        im.seek(start)
        got = outcome(call(s, s.of([resdet_PIL.resdetect, resdet.resdetect]), (im,), method, q))
        pos = im.tell()
    if len({a.shape for a in px}) > 1:
        c.label("sizes differ")
        check(got[0] is not None, "pages of different sizes gave %r" % (got[1],))
    else:
        a = np.stack(px)
        agree(got, expected(a, len(px), a.shape[2], a.shape[1], method, q), "resdetect")
        check(pos == start, "left at frame %d instead of %d" % (pos, start))
    os.unlink(path)
    c.nontrivial(b"".join(a.tobytes() for a in px) + repr((method, q)).encode())

def analysis(s, c):
    live, hist = [], []
    c.label("histories")
    compared = 0
    for step in range(1 + s.upto(14)):
        k = s.weighted([3, 8, 5, 1, 1]) if live else 0
        if k == 0:
            if len(live) >= 3: continue
            w, h = extents(s, dim(s, 18), dim(s, 18))
            bad = s.chance(6)
            if bad: w, h = s.of([(0, h), (w, 0), (2**40, 2**40), (-1, h), (w, -5)])
            method, q = s.of([None] + METHODS), params(s)
            if s.chance(5): q = dict(q, **s.of([{"range": 0}, {"threshold": 2}, {"threshold": -1}, {"range": -1}]))
            hist.append("create %dx%d %s %s" % (w, h, method, q)); c.desc(hist[-1] + "; ")
            ref = CAnalysis(w % 2**64, h % 2**64, method, {k: v % 2**64 if k == "range" else v for k, v in q.items()} if q.get("range", 1) > 0 else {"range": 0})
            e, a = outcome(call(s, resdet.Analysis, (w, h), method, q))
            if ref.error: agree((e, a), (ref.error, None), "Analysis")
            else:
                if e is not None: raise Fail("Analysis: %r" % e)
                if s.chance(20): check(a.__enter__() is a, "context manager")
                live.append([a, ref, w, h, 0])
            continue
        j = s.upto(len(live) - 1)
        a, ref, w, h, done = live[j]
        if k == 1:
            t = s.weighted([3, 4, 2])
            keep = None
            if t == 0:
                name, x, px = flat_carrier(s, 1, w, h)
                if name == "pointer": x, keep = x
            elif t == 1: name, x, px = numpy_carrier(s, 1, w, h, s.chance(10))
            else:
                mode = s.of(PIL_MODES)
                name = "PIL " + mode
                x, px = pil_frame(s, w, h, mode)
            hist.append("analyze %d %s" % (j, name)); c.desc(hist[-1] + "; ")
            e = ref.analyze(px)
            got = outcome(lambda: a.analyze_image(x))
            if e: agree(got, (e, None), "analyze_image")
            elif got[0] is not None: raise Fail("analyze_image(%s): %r" % (name, got[0]))
            else: live[j][4] += 1
        elif k == 2:
            c.desc("results %d; " % j)
            want = ref.results()
            agree(outcome(a.analysis_results), want, "analysis_results after %d images" % done)
            if not want[0] and len(want[1]["widths"]) + len(want[1]["heights"]) > 2: compared += 1
        elif k == 3:
            c.desc("destroy %d; " % j)
            if s.chance(50): a.destroy_analysis()
            else: a.__exit__(None, None, None)
            agree(outcome(lambda: a.analyze_image([1.0] * (w * h))), (6, None), "analyze_image after destroying")
            agree(outcome(a.analysis_results), (6, None), "results after destroying")
            a.destroy_analysis()
            live.pop(j)
        else:
            c.desc("drop %d; " % j)
            del a
            live.pop(j)
            gc.collect()
    if compared: c.nontrivial(repr((hist, compared)).encode())

# files
def encode(s, kind, w, h, n):
    """(bytes, frames)"""
    r = s.bulk()
    if kind == "pgm":
        d = [r.randrange(256) for _ in range(w * h)]
        return b"P5\n%d %d\n255\n" % (w, h) + bytes(d), [f32(np.array(d, dtype=np.float32) / np.float32(255)).reshape(h, w)]
    if kind == "pfm":
        out, frames = b"", []
        for _ in range(n):
            a = np.array([r.gauss(0, 3) for _ in range(w * h)], dtype=np.float32).reshape(h, w)
            big = r.random() < .3
            out += b"Pf\n%d %d\n%s\n" % (w, h, b"1.0" if big else b"-1.0") + a[::-1].astype(">f4" if big else "<f4").tobytes()
            frames.append(a)
        return out, frames
    mono = r.random() < .5
    out, frames = b"YUV4MPEG2 W%d H%d F25:1 C%s\n" % (w, h, b"mono" if mono else b"420jpeg"), []
    for _ in range(n):
        y = bytes(r.randrange(256) for _ in range(w * h))
        out += b"FRAME\n" + y + (b"" if mono else b"x" * (((w + 1) // 2) * ((h + 1) // 2) * 2))
        frames.append(f32(np.frombuffer(y, dtype=np.uint8).astype(np.float32) / np.float32(255)).reshape(h, w))
    return out, frames
class Custom(os.PathLike):
    def __init__(self, p): self.p = p
    def __fspath__(self): return self.p
def path_as(s, path):
    k = s.upto(3)
    if k == 1: return pathlib.Path(path), "Path"
    if k == 2: return Custom(path), "PathLike"
    if k == 3:
        d = [e for e in os.scandir(os.path.dirname(path)) if e.name == os.path.basename(path)] if os.path.isfile(path) else 0
        if d: return d[0], "DirEntry"
    return path, "str"
def same_frame(got, want, what):
    check(got.shape == want.shape, "%s: shape %s instead of %s" % (what, got.shape, want.shape))
    check(np.allclose(got, want, rtol=1e-6, atol=1e-7), "%s: %s instead of %s" % (what, got.tolist(), want.tolist()))
def buffer_frame(b, k=None):
    """all of the buffer, by index"""
    out = np.zeros((b.height, b.width), dtype=np.float32)
    for y in range(b.height):
        for x in range(b.width):
            out[y, x] = b[y, x] if k is None else b[k, y, x]
    return out
def indices(s, b, frames):
    n, h, w = len(frames), *frames[0].shape
    check(tuple(b.shape()) == ((h, w) if n == 1 else (n, h, w)), "shape %s of %d images %dx%d" % (b.shape(), n, w, h))
    for k in range(n): same_frame(buffer_frame(b, k), frames[k], "image %d by index" % k)
    same_frame(buffer_frame(b), frames[0], "first image by index")
    flat = np.concatenate([f.reshape(-1) for f in frames])
    i = s.upto(flat.size - 1)
    check(abs(b[i] - flat[i]) <= 1e-6 * max(1, abs(flat[i])), "flat index %d" % i)
    for bad in [(h, 0), (0, w), (n, 0, 0), (0, h, 0), (0, 0, w), n * h * w, n * h * w + 7, (h, w), (0, w + 3), (0, 0, 0, 0)]:
        e, v = outcome(lambda: b[bad])
        check(e is not None, "index %s of %s gave %r" % (bad, b.shape(), v))
    for neg, conv in [((-1, 0), frames[0][-1, 0]), ((0, -1), frames[0][0, -1]), (-1, flat[-1]), ((-1, 0, 0), frames[-1][0, 0]), (-flat.size - 1, None), ((-h - 1, 0), None)]:
        e, v = outcome(lambda: b[neg])
        check(isinstance(e, IndexError) if e is not None else conv is not None and abs(v - conv) <= 1e-6 * max(1, abs(conv)), "index %s of %s gave %r %r" % (neg, b.shape(), e, v))
NAMES = ["image", "a b", "\u00e9\u4e2d", "dots.in.name", "caf\udce9", "-", "x" * 100]
def reading(s, c):
    kind = s.of(["pgm", "pfm", "y4m"])
    w, h, n = dim(s, 14), dim(s, 14), 1 + s.upto(3)
    if s.upto(199) == 199: kind, w, h, n = s.of(["pfm", "y4m"]), 1 + s.upto(2), 1 + s.upto(2), s.of([254, 255, 256, 257, 300, 600])
    data, frames = encode(s, kind, w, h, n)
    n = len(frames)
    cut = False
    if n > 1 and s.chance(12): # damage the last frame
        data, cut = data[:-(1 + s.upto(w * h - 1) if kind == "y4m" and b"Cmono" in data[:60] else 1 + s.upto(4 * w * h - 1) if kind == "pfm" else 0) or None], True
        if kind == "y4m" and b"Cmono" not in data[:60]: cut = False
    d = os.path.join(c.scratch(), "d"); os.makedirs(d, exist_ok=True)
    how = s.upto(2) # by extension, by type, by reader
    name = s.of(NAMES) + ("." + kind if how == 0 else s.of(["", ".xyz", ".pgm.bin"]))
    path = os.path.join(d, name)
    with open(path, "wb") as f: f.write(data)
    p, pn = path_as(s, path)
    if s.chance(10) and not name.startswith("-"):
        os.chdir(d); p, pn = path_as(s, "./" + name)
    typ = {} if how == 0 else {"type": s.of([kind, kind.upper(), {"pgm": "image/x-portable-graymap", "pfm": "image/x-portable-floatmap", "y4m": "video/yuv4mpeg"}[kind]])} if how == 1 else {"image_reader": s.of([kind.upper(), kind])}
    op = s.upto(5)
    if op in (3, 4, 5) and how == 2: typ = {"type": kind}
    c.desc("%s %s %dx%d frames=%d%s %s %s op=%d" % (pn, name, w, h, n, " damaged" if cut else "", typ, kind, op)); c.label(pn); c.label("op %d" % op)
    whole = frames if not cut else frames[:-1]
    if op == 0: # frame by frame into an ImageBuffer
        b = resdet.ImageBuffer()
        with resdet.Image(p, buffer=b, **typ) as im:
            check((im.width, im.height) == (w, h) and (b.width, b.height, b.nimages) == (w, h, 1), "size %dx%d, buffer %dx%d" % (im.width, im.height, b.width, b.height))
            skip = s.upto(n) if s.chance(40) and not cut else 0
            if skip:
                seen = []
                if s.chance(50): check(im.seek_frame(skip, seen.append), "seek by %d of %d" % (skip, n)); check(seen == list(range(1, skip + 1)), "progress %s of %d" % (seen, skip))
                else: check(im.seek_frame(skip), "seek by %d of %d" % (skip, n))
            for i in range(skip, len(whole)):
                check(im.read_image_frame(b), "frame %d of %d" % (i, n))
                same_frame(buffer_frame(b), frames[i], "frame %d" % i)
                if i == skip: indices(s, b, [frames[i]])
            e, r = outcome(lambda: im.read_image_frame(b))
            if cut: check(type(e) is resdet.InvalidImageError, "damaged frame gave %r %r" % (e, r))
            else: check(e is None and not r, "after the last frame: %r %r" % (e, r))
            check(cut or not im.seek_frame(1), "seek past the end")
        if not cut and s.chance(30): # far past the end
            far = s.of([n + 1, 255, 256, 65536, 65537, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1])
            if far > n:
                with resdet.Image(p, **typ) as im: check(not im.seek_frame(far), "seek by %d of %d" % (far, n))
    elif op == 1 or op == 2: # iteration
        mod = resdet_numpy if op == 1 else resdet_PIL
        with mod.Image(p, **typ) as im:
            check((im.width, im.height) == (w, h), "size %dx%d" % (im.width, im.height))
            got = []
            e, _ = outcome(lambda: [got.append(x) for x in im])
            check(type(e) is resdet.InvalidImageError if cut else e is None, "iterating ended with %r" % e)
        check(len(got) == len(whole), "%d frames instead of %d" % (len(got), len(whole)))
        for i, x in enumerate(got):
            if op == 2:
                check(isinstance(x, PIL.Image.Image) and x.mode == "F" and x.size == (w, h), "frame %r" % x)
                x = np.asarray(x)
            check(x.dtype == np.float32, "dtype %s" % x.dtype)
            same_frame(x, frames[i], "frame %d" % i)
    elif op == 3:
        e, b = outcome(lambda: resdet.read_image(p, **typ))
        if cut: check(type(e) is resdet.InvalidImageError, "%r" % e)
        else:
            if e is not None: raise Fail("read_image: %s %s" % (type(e).__name__, e))
            check((b.width, b.height, b.nimages) == (w, h, n), "%d images %dx%d" % (b.nimages, b.width, b.height))
            indices(s, b, frames)
            method, q = s.of([None] + METHODS), params(s)
            agree(outcome(call(s, resdet.resdetect, (b,), method, q)), expected(np.stack(frames), n, w, h, method, q) if kind == "pfm" else expected(np.ctypeslib.as_array(b.data, shape=(n, h, w)), n, w, h, method, q), "resdetect of what was read")
            b.close()
    else: # detection
        method, q = s.of([None] + METHODS), params(s)
        f = s.of([resdet.resdetect, resdet_numpy.resdetect, resdet_PIL.resdetect]) if op == 4 else resdet.resdetect_file
        t = typ.get("type")
        m = resdet.Method.get(method) if method else None
        got = outcome(s.of([lambda: f(p, t, m, q), lambda: f(p, type=t, method=m, parameters=q)]))
        with resdet_numpy.Image(path, type=kind) as im: px = [] if cut else np.stack(list(im)) # compared with the encoder's above
        agree(got, (3, None) if cut else expected(px, n, w, h, method, q), "detection of the file")
    os.chdir("/")
    os.unlink(path)
    c.nontrivial(data + repr((typ, op, pn)).encode())

def failing(s, c):
    """files that cannot be opened or read"""
    d = os.path.join(c.scratch(), "d"); os.makedirs(d, exist_ok=True)
    k = s.upto(5)
    path = os.path.join(d, s.of(["x", "\u00e9", "caf\udce9"]) + s.of([".pgm", ".pfm", ".y4m"]))
    typ, want = {}, None
    if os.path.exists(path): os.unlink(path)
    if k == 0: want = (-errno.ENOENT, None)
    elif k == 1: # no reader
        path = path[:-4] + s.of([".xyz", "", ".pgm~"]); open(path, "wb").write(b"P5 1 1 255\nx"); want = (4, None)
    elif k == 2: # garbage
        open(path, "wb").write(s.bulk().randbytes(s.upto(40))); want = (3, None)
    elif k == 3: # another format
        open(path, "wb").write({".pgm": b"Pf 1 1 1\nxxxx", ".pfm": b"P5 1 1 255\nx", ".y4m": b"P5 1 1 255\nx"}[path[-4:]]); want = (3, None)
    elif k == 4: # too big
        n = s.of([2**40, 2**62, 2**64 - 1])
        if path.endswith("y4m"): open(path, "wb").write(b"YUV4MPEG2 W%d H%d\n" % (n, n))
        else: open(path, "wb").write(b"%s %d %d 255\n" % (b"P5" if path.endswith("pgm") else b"Pf", n, n))
        want = (5, None)
    else: # not a file name
        path = os.path.join(path, "below"); want = (-errno.ENOENT, None)
        if s.chance(50):
            open(os.path.dirname(path), "wb").close(); want = (-errno.ENOTDIR, None)
        typ = {"type": "pgm"}
    c.desc("%d %s" % (k, path))
    c.label("case %d" % k)
    p, _ = path_as(s, path)
    f = s.of([lambda: resdet.Image(p, **typ), lambda: resdet.Image(p, buffer=resdet.ImageBuffer(), **typ), lambda: resdet_numpy.Image(p, **typ), lambda: resdet_PIL.Image(p, **typ), lambda: resdet.read_image(p, **typ), lambda: resdet.resdetect_file(p, **typ), lambda: resdet.resdetect(p, **typ),
              lambda: resdet.Image(p, image_reader="PGM")])
    if k == 1 and "image_reader" in f.__code__.co_consts or k in (3, 4) and f.__code__.co_consts and "PGM" in str(f.__code__.co_consts): f = lambda: resdet.read_image(p, **typ)
    if k == 1 and "PGM" in str(f.__code__.co_consts): f = lambda: resdet.read_image(p)
    agree(outcome(f), want, "opening")
    for q in (path, os.path.dirname(path)):
        if os.path.isfile(q): os.unlink(q)
    c.nontrivial(repr((k, path, s.upto(1000))).encode(errors="backslashreplace"))

def parameters(s, c):
    """names and values, valid or not"""
    w, h = 3 + s.upto(12), 3 + s.upto(12)
    a = f32(values(s, w * h, "g"))
    q, bad = {}, False
    for _ in range(1 + s.upto(3)):
        k = s.weighted([4, 4, 4, 2])
        if k == 0:
            v = s.of([1, 2, 5, 0, -1, -2**63, 2**64 - 1, 2**64, 2**64 + 3, 2**65 + 1, 2.5, "2", None, math.nan])
            q["range"] = v
        elif k == 1:
            v = s.of([0, 1, .5, .3, -1, -.001, 1.5, 2, math.nan, math.inf, -math.inf, 1e300, -1e300, "0.5", None, 10**400])
            q["threshold"] = v
        elif k == 2:
            v = s.of([0, 1, 2, 3, 31, 32, 33, 64, 255, 256, 258, -1, -254, 2**32 + 1, 2**64 + 1, 1.5, "1", None])
            q["compression_filter"] = v
        else: q[s.of(["Range", "thresh", "filter", "", "method", "compression-filter", "range "])] = 1
    for k, v in q.items():
        if k == "range": bad |= not (isinstance(v, int) and 0 <= v < 2**64) # 0 is the library's to refuse
        elif k == "threshold": bad |= not isinstance(v, (int, float)) or v == 10**400
        elif k == "compression_filter": bad |= not (isinstance(v, int) and 0 <= v <= 255)
        else: bad = True
    c.desc("%dx%d %r" % (w, h, q))
    method = s.of([None] + METHODS)
    m = resdet.Method.get(method) if method else None
    qq = dict(q)
    which = s.upto(3)
    if which == 0: f = lambda: resdet.resdetect([float(x) for x in a], 1, w, h, m, q)
    elif which == 1:
        def f():
            an = resdet.Analysis(w, h, m, q)
            an.analyze_image(array.array("f", a))
            return an.analysis_results()
    elif which == 2: f = lambda: resdet.resdetect(a.reshape(h, w), m, q)
    else:
        path = os.path.join(c.scratch(), "p.pfm")
        with open(path, "wb") as o: o.write(b"Pf\n%d %d\n-1\n" % (w, h) + a.reshape(h, w)[::-1].astype("<f4").tobytes())
        f = lambda: resdet.resdetect_file(path, method=m, parameters=q)
    got = outcome(f)
    if bad:
        c.label("refused")
        check(got[0] is not None, "%r was accepted: %r" % (q, got[1]))
    else:
        want = expected(a, 1, w, h, method, q)
        c.label("refused by the library" if want[0] else "accepted")
        agree(got, want, "with %r" % q)
    check(repr(q) == repr(qq), "the parameters were changed to %r" % q)
    c.nontrivial(repr((qq, method, which)).encode() + a.tobytes())

def tables(s, c):
    check(resdet.libversion() == c_version().decode(), "version")
    check(resdet.default_range() == c_default_range(), "default range")
    r, i = c_readers(), 0
    want = []
    while r[i]: want.append(r[i].decode()); i += 1
    check(resdet.list_image_readers() == want, "readers %s instead of %s" % (resdet.list_image_readers(), want))
    ms = resdet.methods()
    check([m.name for m in ms] == METHODS, "methods %s" % [m.name for m in ms])
    k = s.upto(3)
    m = resdet.Method.get(METHODS[k])
    for x in (m, ms[k]):
        check(x.name == METHODS[k], "name %s" % x.name)
        p = c_get_method(METHODS[k].encode())
        check(x.threshold == ctypes.c_float.from_address(p + 16).value, "threshold %r" % x.threshold)
    a = f32(values(s, 144, "g"))
    want = expected(a, 1, 12, 12, METHODS[k], {"range": 2, "threshold": .1})
    for x in (m, ms[k]): agree(outcome(lambda: resdet.resdetect(array.array("f", a), 1, 12, 12, x, {"range": 2, "threshold": .1})), want, METHODS[k])
    name = s.of(["", "Sign", "sig", "signs", "none", "zero x"])
    check(resdet.Method.get(name) is None, "method %r" % name)
    c.desc(METHODS[k])
    c.nontrivial(a.tobytes())

def buffers(s, c):
    """ImageBuffer life cycles, run against a model of their contents"""
    d = os.path.join(c.scratch(), "d"); os.makedirs(d, exist_ok=True)
    slots = [] # [buffer, contents (n,h,w) or None when it holds nothing]
    images = [] # [image, frames left]
    did = []
    for step in range(2 + s.upto(14)):
        k = s.upto(9) if slots else s.upto(1)
        if k == 0:
            w, h, n = dim(s, 9), dim(s, 9), 1 + s.upto(2)
            b = resdet.ImageBuffer.with_dimensions(w, h, n)
            a = f32(values(s, n * w * h, "g")).reshape(n, h, w)
            fill(b, a)
            slots.append([b, a]); c.desc("new %dx%dx%d; " % (n, h, w))
            did.append("new")
        elif k == 1:
            slots.append([resdet.ImageBuffer(), None]); c.desc("empty; ")
        else:
            j = s.upto(len(slots) - 1)
            b, a = slots[j]
            if k == 2:
                c.desc("close %d; " % j); b.close(); slots[j][1] = None; did.append("close")
            elif k in (3, 4): # open an image with this buffer
                kind = s.of(["pfm", "y4m"])
                w, h, n = dim(s, 9), dim(s, 9), 1 + s.upto(2)
                data, frames = encode(s, kind, w, h, n)
                path = os.path.join(d, "%d.%s" % (step, kind))
                with open(path, "wb") as f: f.write(data)
                c.desc("open %s %dx%d frames=%d with %d; " % (kind, w, h, n, j))
                images = [x for x in images if x[2] != j]
                images.append([resdet.Image(path, buffer=b), frames, j, 0])
                check((b.width, b.height, b.nimages) == (w, h, 1), "buffer %dx%d" % (b.width, b.height))
                os.unlink(path)
                slots[j][1] = "unread"
                did.append("open")
            elif k in (5, 6) and images: # read the next frame
                im = s.of(images)
                b = slots[im[2]][0]
                c.desc("read into %d; " % im[2])
                e, r = outcome(lambda: im[0].read_image_frame(b))
                if slots[im[2]][1] is None: # its buffer was closed
                    check(type(e) is resdet.ParameterError, "reading into a closed buffer gave %r %r" % (e, r))
                    continue
                if e is not None: raise Fail("read: %r" % e)
                check(bool(r) == (im[3] < len(im[1])), "frame %d of %d: %r" % (im[3], len(im[1]), r))
                if r:
                    slots[im[2]][1] = im[1][im[3]][None]
                    im[3] += 1
                did.append("read")
            elif k == 7:
                c.desc("detect %d; " % j)
                if isinstance(a, str): continue
                if a is None:
                    e, r = outcome(lambda: resdet.resdetect(b))
                    check(e is not None, "detection on an empty buffer gave %r" % (r,))
                else:
                    px = np.array([b.data[i] for i in range(a.size)], dtype=np.float32)
                    agree(outcome(lambda: resdet.resdetect(b, parameters={"range": 1, "threshold": 0})), expected(px, a.shape[0], a.shape[2], a.shape[1], None, {"range": 1, "threshold": 0}), "detection on a buffer")
                    did.append("detect")
            elif k == 8:
                c.desc("drop %d; " % j)
                slots.pop(j)
                images = [[x[0], x[1], x[2] - (x[2] > j), x[3]] for x in images if x[2] != j]
                b = a = None
                gc.collect()
            if k < 8 and j < len(slots):
                b, a = slots[j][:2]
                if isinstance(a, np.ndarray): indices(s, b, list(a))
                elif a is None:
                    e, v = outcome(lambda: b[0])
                    check(e is not None, "index into an empty buffer gave %r" % v)
    if len(did) > 2: c.nontrivial(repr(did).encode() + repr([x[1] if not isinstance(x[1], np.ndarray) else x[1].tobytes() for x in slots]).encode())

def used():
    gc.collect()
    m = libc.mallinfo2()
    return m.uordblks + m.hblkhd
def leaks(s, c):
    d = os.path.join(c.scratch(), "d"); os.makedirs(d, exist_ok=True)
    w, h, n = 6 + s.upto(20), 6 + s.upto(20), 1 + s.upto(2)
    kind = s.of(["pfm", "y4m", "pgm"])
    data, frames = encode(s, kind, w, h, n)
    path = os.path.join(d, "l." + kind)
    with open(path, "wb") as f: f.write(data)
    n = len(frames)
    lst = [float(x) for x in np.stack(frames).reshape(-1)]
    arr = array.array("f", lst)
    nd = np.stack(frames)
    pil = PIL.Image.fromarray(frames[0])
    # also lists of one entry
    q = {"range": s.of([2, 2, 2, 1, 5, 1000]), "threshold": s.of([0, 0, 0, 1]), "compression_filter": 0}
    shared = resdet.ImageBuffer.with_dimensions(w, h, n)
    nan = array.array("f", lst); nan[0] = math.nan
    def quiet(f):
        def g():
            try: f()
            except Exception: pass
        return g
    def with_image():
        with resdet.Image(path, buffer=resdet.ImageBuffer()) as im: im.seek_frame(1, lambda k: None)
    def loop(mod):
        def g():
            for x in mod.Image(path): pass
        return g
    def seq():
        with resdet.Analysis(w, h, None, q) as a:
            for x in frames: a.analyze_image(x)
            a.analysis_results()
    def abandoned():
        a = resdet.Analysis(w, h, None, q)
        a.analyze_image(frames[0])
    def reuse(): resdet.Image(path, buffer=shared)
    def closed_reuse():
        shared.close()
        im = resdet.Image(path, buffer=shared)
        im.read_image_frame(shared)
    ops = [
        ("list", lambda: resdet.resdetect(lst, n, w, h, None, q)), ("array", lambda: resdet.resdetect(arr, n, w, h, None, q)),
        ("numpy", lambda: resdet.resdetect(nd, None, q)), ("PIL", lambda: resdet.resdetect(pil, None, q)), ("float64", lambda: resdet.resdetect(nd.astype(float), None, q)),
        ("file", lambda: resdet.resdetect_file(path, None, None, q)), ("path", lambda: resdet.resdetect(pathlib.Path(path), None, None, q)),
        ("read_image", lambda: resdet.read_image(path)), ("read and close", lambda: resdet.read_image(path).close()), ("with Image", with_image), ("numpy Image", loop(resdet_numpy)), ("PIL Image", loop(resdet_PIL)),
        ("analysis", seq), ("abandoned analysis", abandoned), ("ImageBuffer", lambda: resdet.ImageBuffer.with_dimensions(w, h, n)), ("Image with a used buffer", reuse), ("Image with a closed buffer", closed_reuse),
        ("missing file", quiet(lambda: resdet.resdetect_file("/nonexistent.pgm", None, None, q))), ("missing image", quiet(lambda: resdet.Image("/nonexistent.pgm", buffer=resdet.ImageBuffer()))), ("missing, used buffer", quiet(lambda: resdet.Image("/nonexistent.pgm", buffer=resdet.ImageBuffer.with_dimensions(w, h)))),
        ("unknown parameter", quiet(lambda: resdet.resdetect(arr, n, w, h, None, {"x": 1}))), ("refused parameter", quiet(lambda: resdet.resdetect(arr, n, w, h, None, {"threshold": 3}))), ("wrong parameter", quiet(lambda: resdet.resdetect(arr, n, w, h, None, {"threshold": "x"}))),
        ("not finite", quiet(lambda: resdet.resdetect(nan, n, w, h, None, q))), ("no images", quiet(lambda: resdet.resdetect(arr, 0, w, h, None, q))), ("no width", quiet(lambda: resdet.resdetect(arr, n, 0, h, None, q))), ("no such type", quiet(lambda: resdet.resdetect(set(), n, w, h, None, q))),
        ("wrong method", quiet(lambda: resdet.resdetect(arr, n, w, h, "sign", q))), ("wrong method, file", quiet(lambda: resdet.resdetect_file(path, None, "sign", q))), ("wrong method, analysis", quiet(lambda: resdet.Analysis(w, h, "sign", q))), ("wrong size", quiet(lambda: resdet.Analysis(w, "x", None, q))),
        ("refused analysis", quiet(lambda: resdet.Analysis(0, h, None, q))), ("results of nothing", quiet(lambda: resdet.Analysis(w, h, None, q).analysis_results())), ("analysis of nan", quiet(lambda: resdet.Analysis(w, h, None, q).analyze_image(nan))),
        ("tables", lambda: (resdet.methods(), resdet.list_image_readers(), resdet.libversion())),
    ]
    name, f = s.of(ops)
    c.desc("%s %dx%d frames=%d %s" % (kind, w, h, n, name)); c.label(name)
    for _ in range(40): f()
    grown, objects = [], []
    u, o = used(), len(gc.get_objects())
    for _ in range(8):
        for _ in range(50): f()
        v, p = used(), len(gc.get_objects())
        grown.append(v - u); objects.append(p - o)
        u, o = v, p
        if grown[-1] < 50 * 16 and objects[-1] < 50: break
    else:
        raise Fail("%s: 50 repetitions left %s bytes and %s objects each time" % (name, grown, objects))
    os.unlink(path)
    c.nontrivial(data + name.encode())

pbt.main([
    ("detect", detect, 40000, 600000, 60),
    ("animated", animated, 4000, 50000, 60),
    ("analysis", analysis, 9000, 120000, 60),
    ("reading", reading, 20000, 300000, 60),
    ("failing", failing, 2500, 60000, 60),
    ("parameters", parameters, 10000, 120000, 60),
    ("tables", tables, 500, 10000, 60),
    ("buffers", buffers, 6000, 80000, 60),
    ("leaks", leaks, 1000, 8000, 60),
])
