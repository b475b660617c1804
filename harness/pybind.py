"""The numpy and ctypes modules against the fat library's scalar C functions.
   pybind.py run <tier>       exploration, prints JSON
   pybind.py replay <key...>  exit 1 if violated
Runs in the directory holding the built modules."""
import ctypes
import itertools
import json
import os
import sys
import numpy as np
sys.path.insert(0, os.getcwd())
import vdtnpfun
import vdt_ctypes
import npufunc

LIB = ctypes.CDLL(os.path.abspath("libvdtFatLibWrapper.so"))
ONE = ["asin", "atan", "cos", "exp", "identity", "inv", "isqrt", "log", "sin", "sqrt"]
NIN = dict({n: 1 for n in ONE}, sincos=1, atan2=2, div=2, fma=3, fmac=3)
NOUT = {n: 2 if n == "sincos" else 1 for n in NIN}
SPECIAL = [0.5, -0.5, 0.0, -0.0, 1.0, -1.0, 0.75, 2.25, -3.5, 100.0, 1e-3, 1e-30, 1e30, 709.5, -750.0, float("inf"), float("-inf"), float("nan"), 0.9999, 7.0, 4000.0, -17.25, 1e-40]
F, D = np.float32, np.float64
cache = {}


def scalar(fn, t, args):
    """What the fat library's scalar function gives; arguments already of type t."""
    key = (fn, t, tuple(np.asarray(a, t).tobytes() for a in args))
    if key not in cache:
        ct = ctypes.c_float if t is F else ctypes.c_double
        f = LIB["vdt_" + fn + ("f" if t is F else "")]
        if NOUT[fn] == 2:
            a, b = ct(), ct()
            f.argtypes, f.restype = [ct, ctypes.POINTER(ct), ctypes.POINTER(ct)], None
            f(*[float(x) for x in args], ctypes.byref(a), ctypes.byref(b))
            cache[key] = (t(a.value), t(b.value))
        else:
            f.argtypes, f.restype = [ct] * NIN[fn], ct
            cache[key] = (t(f(*[float(x) for x in args])),)
    return cache[key]


def expected(fn, t, arrs):
    b = np.broadcast_arrays(*arrs)
    outs = [np.empty(b[0].shape, t) for _ in range(NOUT[fn])]
    for idx in np.ndindex(*b[0].shape):
        r = scalar(fn, t, [x[idx] for x in b])
        for o, v in zip(outs, r):
            o[idx] = v
    return outs


def same(a, b):
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    n = np.isnan(a)
    if not np.array_equal(n, np.isnan(b)):
        return False
    u = np.uint32 if a.dtype == F else np.uint64
    return np.array_equal(np.ascontiguousarray(a).view(u)[~n] if a.ndim else np.atleast_1d(a).view(u)[~np.atleast_1d(n)],
                          np.ascontiguousarray(b).view(u)[~n] if a.ndim else np.atleast_1d(b).view(u)[~np.atleast_1d(n)])


def values(n, t, shift=0):
    return np.array([SPECIAL[(i * 3 + shift) % len(SPECIAL)] for i in range(n)], t)


# operand layouts: (array, backing) from a number of elements; the backing is compared afterwards
def layout(kind, n, t, shift):
    if kind == "plain":
        b = values(n, t, shift)
        return b, b
    if kind.startswith("stride"):   # stride<k>o<offset>
        k, o = [int(x) for x in kind[6:].split("o")]
        b = values(n * abs(k) + o + 1, t, shift)
        a = b[o:o + n * abs(k):abs(k)]
        return (a[::-1] if k < 0 else a), b
    if kind == "fortran":           # 2-d, column major
        b = np.asfortranarray(values(n * 3, t, shift).reshape(n, 3))
        return b, b
    if kind == "cube":
        b = values(n * 6, t, shift).reshape(2, n, 3)
        return b, b
    if kind == "slice2d":           # inner block of a larger matrix
        b = values((n + 2) * 7, t, shift).reshape(n + 2, 7)
        return b[1:n + 1, 2:5], b
    if kind == "transposed":
        b = values(n * 4, t, shift).reshape(4, n)
        return b.T, b
    if kind == "rowvector":         # shape (n,) repeated by broadcasting
        b = values(n, t, shift)
        return np.broadcast_to(b, (3, n)), b
    if kind == "unaligned":
        raw = np.zeros(n * np.dtype(t).itemsize + 1, np.uint8)
        a = raw[1:].view(t)
        a[...] = values(n, t, shift)
        return a, raw
    if kind == "swapped":           # foreign byte order
        b = values(n, t, shift).astype(np.dtype(t).newbyteorder())
        return b, b
    if kind == "readonly":
        b = values(n, t, shift)
        b.flags.writeable = False
        return b, b
    raise SystemExit("unknown layout " + kind)


LAYOUTS = ["plain"] + ["stride%do%d" % (k, o) for k in (1, 2, 3, 5, -1, -2, -3) for o in (0, 1, 2)] + ["fortran", "cube", "slice2d", "transposed", "rowvector", "unaligned", "swapped", "readonly"]


def call(module, fn, t, arrs, out=None):
    if module == "numpy":
        f = getattr(vdtnpfun, "vdt_" + fn)
        r = f(*arrs) if out is None else f(*arrs, out=out if isinstance(out, tuple) else (out,))
    elif module == "npufunc":
        r = npufunc.vdt_expv(*arrs) if out is None else npufunc.vdt_expv(*arrs, out=(out,))
    else:
        r = getattr(vdt_ctypes, "vdt_" + fn + ("f" if t is F else ""))(*arrs)
    return r if isinstance(r, tuple) else (r,)


def compare(what, fn, t, got, want, backs, keeps):
    for k, (g, w) in enumerate(zip(got, want)):
        g = np.asarray(g)
        if not same(g, w):
            d = ""
            if g.shape == w.shape and g.dtype == w.dtype and g.size:
                bad = [i for i in np.ndindex(*g.shape) if not same(np.asarray(g[i]), np.asarray(w[i]))]
                d = " first at %s: %r, expected %r" % (bad[:1], g[bad[0]], w[bad[0]])
            else:
                d = " shape %s dtype %s, expected %s %s" % (g.shape, g.dtype, w.shape, w.dtype)
            return "%s: output %d differs:%s" % (what, k + 1, d)
    for b, k in zip(backs, keeps):
        if b.tobytes() != k:
            return what + ": input changed"
    return ""


def execute(key):
    """Returns '' or a description of the violation."""
    w = key.split()
    kind, module, fn, t = w[0], w[1], w[2], F if w[3] == "f" else D
    np.seterr(all="ignore")
    if kind == "layout":            # one layout per operand
        n = int(w[4])
        ops = [layout(l, n, t, 5 * i + n) for i, l in enumerate(w[5:])]
        arrs, backs = [o[0] for o in ops], [o[1] for o in ops]
        keeps = [b.tobytes() for b in backs]
        want = expected(fn, t, [a.astype(t) for a in arrs])
        return compare(key, fn, t, call(module, fn, t, arrs), want, backs, keeps)
    if kind == "list":
        n = int(w[4])
        arrs = [[float(x) for x in values(n, t, 4 * i)] for i in range(NIN[fn])]
        want = expected(fn, t, [np.array(a, t) for a in arrs])
        return compare(key, fn, t, call(module, fn, t, arrs), want, [], [])
    if kind == "bcast":             # numpy only: shapes given as 2x3,3 and so on ("s" = python scalar)
        arrs = []
        for i, s in enumerate(w[4].split(",")):
            shape = () if s == "s" else tuple(int(x) for x in s.split("x"))
            arrs.append(t(SPECIAL[(i * 7 + 2) % 15]) if s == "s" else values(int(np.prod(shape)), t, 6 * i).reshape(shape))
        keeps = [a.tobytes() for a in arrs]
        want = expected(fn, t, arrs)
        return compare(key, fn, t, call(module, fn, t, arrs), want, arrs, keeps)
    if kind == "out":               # given outputs with their own strides; the gaps must stay
        n, ls = int(w[4]), w[5].split(",")
        arrs = [layout(x, n, t, 3 * i)[0] for i, x in enumerate(w[6:])]
        outs = [layout(l, n, t, 9) for l in ls]
        marks = []
        for a, b in outs:
            b[...] = -77.25
        want = expected(fn, t, arrs)
        call(module, fn, t, arrs, tuple(o[0] for o in outs) if NOUT[fn] > 1 else outs[0][0])
        for a, b in outs:
            m = np.ones(b.shape, bool)
            full = b.copy()
            a[...] = -77.25
            marks.append(np.array_equal(b, np.full(b.shape, -77.25, b.dtype)))
            b[...] = full
        if not all(marks):
            return key + ": elements between the outputs changed"
        return compare(key, fn, t, [o[0] for o in outs], want, [], [])
    if kind == "inplace":
        n, l = int(w[4]), w[5]
        a, b = layout(l, n, t, 1)
        others = [values(n, t, 7 * i) for i in range(1, NIN[fn])]
        want = expected(fn, t, [a.copy()] + others)
        call(module, fn, t, [a] + others, a)
        return compare(key, fn, t, [a], want, [], [])
    if kind == "cast":              # other input types
        n, dt = int(w[4]), w[5]
        a = (np.arange(n) % 5 + 1).astype(dt)
        arrs = [a] * NIN[fn]
        to = t
        want = expected(fn, to, [x.astype(to) for x in arrs])
        return compare(key, fn, to, call(module, fn, to, arrs), want, arrs, [a.tobytes()] * len(arrs))
    if kind == "exports":
        m = vdtnpfun if module == "numpy" else vdt_ctypes
        want = ["vdt_" + f for f in (ONE + ["sincos", "atan2"] if module == "numpy" else NIN)]
        if module == "ctypes":
            want += [x + "f" for x in want]
        miss = [x for x in want if not hasattr(m, x)]
        return "missing: %s" % miss if miss else ""
    raise SystemExit("unknown key " + key)


def keys(tier):
    th = tier == "thorough"
    yield "exports numpy - d"
    yield "exports ctypes - d"
    N = 40 if th else 12
    np_fns = ONE + ["sincos", "atan2"]
    for t in "fd":
        for module, fns in (("numpy", np_fns), ("ctypes", list(NIN)), ("npufunc", ["exp"])):
            for fn in fns:
                k = NIN[fn]
                for n in range(N + 1):
                    if k == 1:
                        combos = [(l,) for l in LAYOUTS]
                    elif k == 2:
                        ls = LAYOUTS if n <= (5 if th else 3) else LAYOUTS[::4]
                        combos = [(a, b) for a, b in itertools.product(ls, ls)]
                    else:
                        ls = LAYOUTS[::5]
                        combos = list(itertools.product(ls, ls, ls)) if n <= 4 else [(l,) * 3 for l in LAYOUTS]
                    for c in combos:
                        if len(set(l if l in ("fortran", "cube", "slice2d", "transposed", "rowvector") else "1d" for l in c)) > 1:
                            continue   # shapes have to agree
                        yield "layout %s %s %s %d %s" % (module, fn, t, n, " ".join(c))
                    if not (module != "ctypes" and t == "f"):
                        yield "list %s %s %s %d" % (module, fn, t, n)
                for n in (15, 16, 17, 63, 64, 65, 1000, 8191, 8192, 8193, 20000):
                    for l in ("plain", "stride2o1", "stride-1o0", "unaligned", "swapped"):
                        yield "layout %s %s %s %d %s" % (module, fn, t, n, " ".join([l] * k))
                if module != "ctypes":
                    shapes = ["s", "1", "4", "1x4", "3x1", "3x4", "2x3x4", "0", "2x1x1"]
                    for c in itertools.product(shapes, repeat=k):
                        try:
                            np.broadcast_shapes(*[() if s == "s" else tuple(int(x) for x in s.split("x")) for s in c])
                        except ValueError:
                            continue
                        yield "bcast %s %s %s %s" % (module, fn, t, ",".join(c))
                    for n in range(0, 9 if not th else 20):
                        outs = ("plain", "stride2o0", "stride3o1", "stride-1o0", "stride-2o1")
                        for l in itertools.product(outs, repeat=NOUT[fn]):
                            for i in itertools.product(("plain", "stride2o1", "stride-1o0"), repeat=k):
                                yield "out %s %s %s %d %s %s" % (module, fn, t, n, ",".join(l), " ".join(i))
                        for l in outs:
                            if NOUT[fn] == 1:
                                yield "inplace %s %s %s %d %s" % (module, fn, t, n, l)
                for dt in ("int8", "int16", "uint8", "float16") if t == "f" else ("int32", "int64", "uint32"):
                    for n in (0, 1, 5, 9000):
                        yield "cast %s %s %s %d %s" % (module, fn, t, n, dt)


def main():
    if sys.argv[1] == "replay":
        e = execute(" ".join(sys.argv[2:]))
        print(e or "HELD")
        sys.exit(1 if e else 0)
    mod, part = [int(x) for x in sys.argv[3].split("/")][::-1]
    prog = os.open(sys.argv[4], os.O_CREAT | os.O_WRONLY)
    r = {"states": 0, "transitions": 0, "failures": 0, "violations": [], "counts": {}, "samples": []}
    for i, k in enumerate(keys(sys.argv[2])):
        if i % mod != part:
            continue
        r["states"] += 1
        r["counts"][k.split()[0]] = r["counts"].get(k.split()[0], 0) + 1
        os.pwrite(prog, k.encode().ljust(200), 0)   # names the case should the interpreter crash
        try:
            e = execute(k)
        except Exception as x:   # an exception is an unsupported call
            e = "%s: %s: %s" % (k, type(x).__name__, x)
        if e:
            r["failures"] += 1
            if len(r["violations"]) < 4:
                r["violations"].append({"key": k, "text": e[:400]})
        if i % 1511 < mod and len(r["samples"]) < 5:
            r["samples"].append(k)
    r["transitions"] = len(cache)
    print(json.dumps(r))


main()
