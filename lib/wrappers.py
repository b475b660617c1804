"""Generated wrappers: fat library (C21), Vc (C22), Python bindings (C33)."""
import json
import os
import shutil

from core import Check, CheckError, Result, REPO, HARNESS

# The multi-target dispatcher of the fat library is not accepted by the installed
# compilers; without __linux__ the header provides its single-target form.
FAT = ["-U__linux__", "-shared", "-fPIC", "-w", "-std=c++11"]


def fat_library(ctx, name, cxx, flags):
    d = ctx.path("fat-" + name)
    os.makedirs(d)
    ctx.sh(["python3", os.path.join(REPO, "src", "numpy_wrapper_generator.py")], cwd=d)
    lib = os.path.join(d, "libvdtFatLibWrapper.so")
    ctx.sh([cxx] + flags + FAT + ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + d, "-o", lib, os.path.join(d, "vdtFatLibWrapper.cc")])
    return lib


class Fat(Check):
    technique = "exhaustive enumeration of all generated C functions over an argument lattice and all array lengths and placements, executed on the built library"
    note = "all 60 functions; lattice and cube of special values; every length up to 100 between guard pages; lengths around all powers of two up to 2^18; counts around 2^31 and 2^32"
    VARIANTS = {"gcc-sse": ("g++", ["-O3", "-msse"]), "gcc-avx2": ("g++", ["-O3", "-mavx2"]), "gcc-avx": ("g++", ["-O2", "-mavx"]), "clang-sse": ("clang++", ["-O2"])}

    def build(self):
        vs = list(self.VARIANTS)
        jobs = [lambda v=v: fat_library(self.ctx, v, *self.VARIANTS[v]) for v in vs]
        jobs += [lambda: self.ctx.compile("fat", ["fat.cpp"], ["-ffp-contract=off"], base=["-O2", "-std=c++11"], libs=("-ldl", "-lpthread")),
                 lambda: self.ctx.compile("fat2", ["fat.cpp"], ["-ffp-contract=off"], cxx="clang++", base=["-O1", "-std=c++11"], libs=("-ldl", "-lpthread"))]
        out = self.ctx.parallel(jobs)
        self.libs = dict(zip(vs, out))
        self.bin, self.bin2 = out[len(vs):]

    def run(self):
        self.build()
        r = Result()
        for v in self.VARIANTS:
            j = self.ctx.harness([self.bin, "run", self.libs[v], self.ctx.tier] + (["big"] if v == "gcc-sse" else []))
            for x in j["violations"]:
                x["key"] = v + " " + x["key"]
            j["samples"] = [v + " " + s for s in j["samples"]]
            r.add(j)
        for s in r.samples:
            v, k = s.split(" ", 1)
            if self.ctx.sh([self.bin2, "replay", self.libs[v]] + k.split(), check=False).returncode == 0:
                r.validated += 1
            else:
                r.trace_mismatches.append(s)
        r.bounds = "60 C functions in the builds " + ", ".join(self.VARIANTS) + "; argument lattice, special value cube, lengths 0..100 x 9 offsets at both page ends, lengths around powers of two up to 2^18 (2^22), counts near 2^31..2^33"
        return r

    def replay(self, key, verbose=False):
        v, k = key.split(" ", 1)
        p = self.ctx.sh([self.bin, "replay", self.libs[v]] + k.split(), check=False)
        if verbose:
            print(p.stdout.strip())
        if p.returncode not in (0, 1):
            raise CheckError("replay failed (%d): %s" % (p.returncode, p.stderr))
        return p.returncode == 1


class VcWrapper(Check):
    technique = "exhaustive enumeration of lengths, placements and vector widths on the generated code with a stand-in vector library"
    note = "all wrappers for vector widths 1 to 16, every length up to four vectors and tail, between guard pages"
    assumptions = ["the stand-in implements load, store, element access and the element-wise functions of Vc as documented"]

    def build(self):
        d = self.ctx.path("vc")
        os.makedirs(d)
        self.ctx.sh(["python3", os.path.join(REPO, "src", "vc_wrapper_generator.py")], cwd=d)
        src = os.path.join(d, "vdtdiag_vcWrapper.cc")

        def lib(w):
            out = os.path.join(d, "vc%d.so" % w)
            self.ctx.sh(["g++", "-O2", "-std=c++11", "-w", "-shared", "-fPIC", "-DVC_WIDTH=%d" % w, "-I" + HARNESS + "/vcstub", "-I" + REPO + "/include", "-I" + d, src, "-o", out])
            return out
        out = self.ctx.parallel([lambda w=w: lib(w) for w in range(1, 17)] + [
            lambda: self.ctx.compile("vc-run", ["vc.cpp"], libs=("-ldl", "-lpthread")),
            lambda: self.ctx.compile("vc-run2", ["vc.cpp"], cxx="clang++", base=["-O1", "-std=c++11"], libs=("-ldl", "-lpthread"))])
        self.libs = dict(zip(range(1, 17), out))
        self.bin, self.bin2 = out[16:]

    def run(self):
        self.build()
        r = Result()
        for w, j in zip(self.libs, self.ctx.parallel([lambda w=w: self.ctx.harness([self.bin, "run", self.libs[w], str(w), self.ctx.tier]) for w in self.libs])):
            for x in j["violations"]:
                x["key"] = "%d %s" % (w, x["key"])
            j["samples"] = ["%d %s" % (w, s) for s in j["samples"]]
            r.add(j)
        for s in r.samples:
            w, k = s.split(" ", 1)
            if self.ctx.sh([self.bin2, "replay", self.libs[int(w)], w] + k.split(), check=False).returncode == 0:
                r.validated += 1
            else:
                r.trace_mismatches.append(s)
        r.bounds = "32 wrappers x vector widths 1..16 x lengths 0..4*width+3 x offsets of input and output x both ends of guarded memory"
        return r

    def replay(self, key, verbose=False):
        w, k = key.split(" ", 1)
        p = self.ctx.sh([self.bin, "replay", self.libs[int(w)], w] + k.split(), check=False)
        if verbose:
            print(p.stdout.strip())
        if p.returncode not in (0, 1):
            raise CheckError("replay failed (%d): %s" % (p.returncode, p.stderr))
        return p.returncode == 1


class Python(Check):
    technique = "exhaustive enumeration of array layouts, lengths and broadcasts executed through the built Python modules"
    note = "all functions of three modules; all stated layouts per operand, every length up to 12 (thorough 40) and around numpy's buffer size"
    PY = "python3-vt"

    def build(self):
        if not shutil.which(self.PY):
            raise CheckError("no Python with numpy")
        lib = fat_library(self.ctx, "py", "g++", ["-O3", "-msse"])
        self.d = os.path.dirname(lib)
        inc = self.ctx.sh([self.PY, "-c", "import sysconfig,numpy;print(sysconfig.get_paths()['include'], numpy.get_include())"]).stdout.split()

        def ext(src, name):
            self.ctx.sh(["gcc", "-O2", "-w", "-shared", "-fPIC"] + ["-I" + i for i in inc] + ["-I" + self.d, "-I" + REPO + "/src", os.path.join(REPO, "src", src), "-o", os.path.join(self.d, name + ".so"),
                         "-L" + self.d, "-lvdtFatLibWrapper", "-Wl,-rpath,$ORIGIN"])
        self.ctx.parallel([lambda: ext("vdtNumpyWrapper.c", "vdtnpfun"), lambda: ext("expfWrapper.c", "npufunc")])
        self.env = {"PYTHONPATH": REPO + "/scripts:" + self.d, "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1"}

    def run(self):
        self.build()
        r = Result()
        parts = 8

        def part(p):
            prog = self.ctx.path("progress-%d" % p)
            q = self.ctx.sh([self.PY, HARNESS + "/pybind.py", "run", self.ctx.tier, "%d/%d" % (p, parts), prog], cwd=self.d, env=self.env, check=False,
                            timeout=800 if not self.ctx.thorough else 9000)
            if q.returncode < 0 and os.path.exists(prog):
                k = open(prog).read().strip()
                return {"states": 1, "failures": 1, "exhaustive": False, "violations": [{"key": k, "text": "the interpreter was killed by signal %d in: %s" % (-q.returncode, k)}]}
            if q.returncode:
                raise CheckError("pybind: " + q.stderr[-1500:])
            return json.loads(q.stdout)
        for j in self.ctx.parallel([lambda p=p: part(p) for p in range(parts)]):
            r.add(j)
        for s in r.samples:
            if self.status(s).returncode == 0:
                r.validated += 1
            else:
                r.trace_mismatches.append(s)
        r.bounds = "layouts: contiguous, strides -3..5, offsets 0..2, column major, 3-d, slices, transposed, broadcast, unaligned, foreign byte order, read-only; outputs given, strided or in place; other input types; lists"
        return r

    def status(self, key):
        return self.ctx.sh([self.PY, HARNESS + "/pybind.py", "replay"] + key.split(), cwd=self.d, env=self.env, check=False)

    def replay(self, key, verbose=False):
        p = self.status(key)
        if verbose:
            print(p.stdout.strip(), p.stderr.strip()[-500:])
        if p.returncode == 0:
            return False
        return True


CHECKS = {"C21": Fat, "C22": VcWrapper, "C33": Python}
