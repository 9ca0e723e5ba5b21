"""Python side of the engine: see pbt.hpp"""
import ctypes, os, random, struct, sys, traceback
_l = ctypes.CDLL(os.environ["PBT_ENGINE"])
_l.pbt_upto.restype = ctypes.c_uint64
_l.pbt_upto.argtypes = [ctypes.c_void_p, ctypes.c_uint64]
_l.pbt_label.argtypes = _l.pbt_desc.argtypes = [ctypes.c_void_p, ctypes.c_char_p]
_l.pbt_label.restype = _l.pbt_desc.restype = _l.pbt_nontrivial.restype = None
_l.pbt_nontrivial.argtypes = [ctypes.c_void_p, ctypes.c_uint64]
_l.pbt_scratch.argtypes = _l.pbt_thorough.argtypes = [ctypes.c_void_p]
_l.pbt_scratch.restype = ctypes.c_char_p
_l.pbt_hash.restype = ctypes.c_uint64
_l.pbt_hash.argtypes = [ctypes.c_char_p, ctypes.c_size_t]
FN = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p, ctypes.POINTER(ctypes.c_char), ctypes.c_size_t)

class Fail(Exception): pass
class Discard(Exception): pass

class Src:
    def __init__(self, p): self.p = p
    def upto(self, n): return _l.pbt_upto(self.p, n)
    def range(self, lo, hi): return lo + self.upto(hi - lo)
    def chance(self, percent): return self.upto(99) >= 100 - percent
    def of(self, seq): return seq[self.upto(len(seq) - 1)]
    def weighted(self, w):
        k = self.upto(sum(w) - 1)
        for i, x in enumerate(w):
            if k < x: return i
            k -= x
    def bulk(self): return random.Random(self.upto(0xffffffff))

class Ctx:
    def __init__(self, p): self.p = p
    def label(self, s): _l.pbt_label(self.p, s.encode(errors='backslashreplace')[:60])
    def desc(self, s): _l.pbt_desc(self.p, s.encode(errors='backslashreplace')[:1500])
    def nontrivial(self, data): _l.pbt_nontrivial(self.p, _l.pbt_hash(data, len(data)))
    def scratch(self): return _l.pbt_scratch(self.p).decode()
    def thorough(self): return bool(_l.pbt_thorough(self.p))

def check(ok, msg):
    if not ok: raise Fail(msg)

def main(facets):
    keep = []
    for name, fn, quick, thorough, cpu in facets:
        def run(s, c, msg, cap, fn=fn):
            try:
                fn(Src(s), Ctx(c))
                return 0
            except Discard:
                return 2
            except Fail as e:
                t = str(e)
            except BaseException:
                t = traceback.format_exc()
            b = t.encode(errors="replace")[-cap + 1:]
            ctypes.memmove(msg, b, len(b))
            msg[len(b)] = b"\0"
            return 1
        cb = FN(run)
        keep.append(cb)
        _l.pbt_add(name.encode(), cb, quick, thorough, cpu)
    args = [a.encode() for a in sys.argv]
    argv = (ctypes.c_char_p * (len(args) + 1))(*args, None)
    sys.stdout.flush()
    r = _l.pbt_run(len(args), argv)
    os._exit(r)
