"""Build configurations: results across builds (C18), headers (C19), preload (C20),
build options and reconfiguration (C37), diagnostic headers (C43)."""
import glob
import hashlib
import itertools
import os
import re
import shutil
import threading

from core import Check, CheckError, Result, REPO, HARNESS

BASELINE = "g++ -O3 -msse -std=c++11"


class Builds(Check):
    technique = "exhaustive product of build configurations and an argument lattice, executed and compared bit by bit"
    note = "every build of the stated product evaluated on every argument of a lattice taking every branch"

    def configs(self):
        cxx = ("g++", "clang++")
        nofma = ("-msse", "-mavx", "-mavx2", "-march=native -ffp-contract=off")
        if self.ctx.thorough:
            ident = [" ".join(x) for x in itertools.product(cxx, ("-O0", "-O1", "-O2", "-O3", "-Os"), nofma, ("-std=c++11", "-std=c++14", "-std=c++17", "-std=c++20"))]
            fma = [" ".join(x) for x in itertools.product(cxx, ("-O0", "-O1", "-O2", "-O3"), ("-mavx2 -mfma", "-mavx512f", "-march=native"), ("-std=c++11", "-std=c++17"))]
        else:
            ident = [" ".join(x) for x in itertools.product(cxx, ("-O0", "-O1", "-O2", "-O3"), ("-msse", "-mavx2"), ("-std=c++11",))]
            ident += [" ".join(x) for x in itertools.product(cxx, ("-O3",), ("-mavx", "-march=native -ffp-contract=off"), ("-std=c++11",))]
            ident += [" ".join(x) for x in itertools.product(cxx, ("-O2",), ("-msse",), ("-std=c++14", "-std=c++17", "-std=c++20"))]
            fma = [" ".join(x) for x in itertools.product(cxx, ("-O1", "-O3"), ("-mavx2 -mfma", "-mavx512f", "-march=native"), ("-std=c++11",))]
        return [c for c in ident if c != BASELINE], fma

    def build(self):
        self.src, self.files = self.ctx.library_sources()
        self.made = {}
        self.base = self.make(BASELINE)
        self.env = {"MC_LITERALS": self.ctx.literals()}

    def make(self, cfg):
        if cfg not in self.made:
            w = cfg.split()
            self.made[cfg] = self.ctx.compile("cfg%d-%s" % (len(self.made), re.sub(r"\W", "", cfg)), ["configs.cpp"] + self.files, cxx=w[0], base=w[1:] + ["-w"],
                                              inc=[self.src + "/include", self.src + "/src"])
        return self.made[cfg]

    def dump(self, cfg):
        b = self.make(cfg)
        self.ctx.sh([b, "dump", b + ".bin"], env=self.env)
        with open(b + ".bin", "rb") as f:
            d = f.read()
        os.remove(b + ".bin")
        return d

    def run(self):
        self.build()
        r = Result()
        ident, fma = self.configs()
        ref = self.dump(BASELINE)
        n = len(ref) // 8
        r.states = n

        def same(cfg):
            try:
                d = self.dump(cfg)
            except CheckError as e:
                return cfg, None, str(e)
            if len(d) != len(ref):
                raise CheckError("different number of records with " + cfg)
            if d == ref:
                return cfg, -1, ""
            return cfg, next(i for i in range(n) if d[8 * i:8 * i + 8] != ref[8 * i:8 * i + 8]), ""

        for cfg, i, err in self.ctx.parallel([lambda c=c: same(c) for c in ident]):
            if i is None:
                r.violate("ident|%s|-1" % cfg, "does not build or run with %s: %s" % (cfg, err[-300:]))
                continue
            r.states += n
            r.transitions += n
            if i >= 0:
                at = lambda b: self.ctx.sh([b, "at", str(i)], env=self.env).stdout.strip()
                r.violate("ident|%s|%d" % (cfg, i), "%s: %s; %s: %s" % (BASELINE, at(self.base), cfg, at(self.make(cfg))))

        def accuracy(cfg):
            try:
                return cfg, self.ctx.harness([self.make(cfg), "judge"])
            except CheckError as e:
                return cfg, str(e)
        judged = 0
        for cfg, j in self.ctx.parallel([lambda c=c: accuracy(c) for c in fma]):
            if isinstance(j, str):
                r.violate("judge|%s|-1" % cfg, "does not build or run with %s: %s" % (cfg, j[-300:]))
                continue
            r.states += j["states"]
            judged += j["transitions"]
            for v in j["violations"][:2]:
                r.violate("judge|%s|%s" % (cfg, v["key"]), cfg + ": " + v["text"])
        r.transitions += judged
        r.counts = {"bit_identical_builds": len(ident), "contracting_builds": len(fma), "records_per_build": n, "accuracy_judgements": judged}
        r.bounds = "builds: %s; contracting builds: %s; each on %d evaluations (scalar and array functions)" % ("; ".join(ident[:40]), "; ".join(fma[:24]), n)
        other = self.make("clang++ -O1 -msse -std=c++11")
        for k in range(32):
            i = (n - 1) * k // 31
            a, b = [self.ctx.sh([x, "at", str(i)], env=self.env).stdout for x in (self.base, other)]
            r.samples.append(a.strip())
            if a == b:
                r.validated += 1
            else:
                r.trace_mismatches.append(a)
        return r

    def replay(self, key, verbose=False):
        kind, cfg, i = key.split("|")
        try:
            b = self.make(cfg)
        except CheckError as e:
            if verbose:
                print(e)
            return True
        if i == "-1":
            try:
                self.ctx.sh([b, "judge"], env=self.env)
                return False
            except CheckError:
                return True
        if kind == "judge":
            p = self.ctx.sh([b, "judgeat", i], env=self.env, check=False)
            if verbose:
                print(cfg, p.stdout)
            return p.returncode == 1
        x, y = [self.ctx.sh([z, "at", i], env=self.env).stdout for z in (self.base, b)]
        if verbose:
            print(BASELINE, x, cfg, y)
        return x != y


class Headers(Check):
    technique = "exhaustive enumeration of inclusion programs compiled and linked with the real headers and library"
    note = "all single headers and ordered pairs of the installed set, both compilers, language standards C++11 to C++20"
    # a use of every function by header, for the headers known today; others are only compiled
    USES = {"asin": ["asin", "acos"], "acos": ["acos"], "atan": ["atan"], "cos": ["cos"], "sin": ["sin"], "tan": ["tan"], "tanh": ["tanh"], "exp": ["exp"],
            "log": ["log"], "inv": ["inv", "approx_inv"], "sqrt": ["isqrt", "approx_isqrt"]}

    def build(self):
        ctx = self.ctx
        src, b = ctx.project("inst", ["-DDIAG=OFF", "-DCMAKE_INSTALL_PREFIX=" + ctx.path("inst")], ["vdt"])
        ctx.sh(["cmake", "--install", b])
        hs = glob.glob(ctx.path("inst") + "/**/vdtMath.h", recursive=True)
        if not hs:
            raise CheckError("no headers installed")
        self.inc = os.path.dirname(hs[0])
        self.headers = sorted(os.path.basename(h) for h in glob.glob(self.inc + "/*.h"))
        libs = glob.glob(ctx.path("inst") + "/**/libvdt.*", recursive=True)
        if not libs:
            raise CheckError("no library installed")
        self.lib = libs[0]

    def include(self):
        return ["-I" + self.inc]

    def uses(self, hs):
        """Statements that call the functions the included headers must provide."""
        out = []
        names = set()
        for h in hs:
            names.update(self.USES.get(h[:-2], []))
            if h == "vdtMath.h":
                for v in self.USES.values():
                    names.update(v)
        for n in sorted(names):
            out += ["r += vdt::fast_%s(x);" % n, "r += vdt::fast_%sf((float)x);" % n]
        if "sincos.h" in hs or "vdtMath.h" in hs:
            out += ["{ double s, c; vdt::fast_sincos(x, s, c); r += s + c; float u, w; vdt::fast_sincosf((float)x, u, w); r += u + w; }"]
        if "atan2.h" in hs or "vdtMath.h" in hs:
            out += ["r += vdt::fast_atan2(x, x + 1) + vdt::fast_atan2f((float)x, 2.f);"]
        if "identity.h" in hs or "vdtMath.h" in hs:
            out += ["r += vdt::identity(x) + vdt::identityf((float)x);"]
        return out

    def tu(self, hs, name):
        inc = "".join('#include "%s"\n' % h for h in hs)
        return inc + "double %s(double x) { double r = x; %s return r; }\n" % (name, " ".join(self.uses(hs)))

    def declared(self):
        """Array functions declared by the installed headers."""
        p = self.ctx.path("decl.cpp")
        with open(p, "w") as f:
            f.write("".join('#include "%s"\n' % h for h in self.headers))
        t = self.ctx.sh(["g++", "-std=c++11", "-E", "-P", "-I" + self.inc, p]).stdout
        return sorted(set(re.findall(r"\bvoid\s+(\w+)\s*\(\s*(?:const\s+)?uint32_t(?:\s+const)?\b[^()]*\)\s*;", t)))

    def scenarios(self):
        cxx, stds = ("g++", "clang++"), ("c++11", "c++14", "c++17", "c++20")
        for c, s, h in itertools.product(cxx, stds, self.headers):
            yield "alone %s %s %s" % (c, s, h)
        pair = [("g++", "c++11"), ("clang++", "c++17")] if not self.ctx.thorough else list(itertools.product(cxx, stds))
        for (c, s), a, b in itertools.product(pair, self.headers, self.headers):
            yield "pair %s %s %s %s" % (c, s, a, b)
        if self.ctx.thorough:
            for a, b, d in itertools.permutations(self.headers, 3):
                yield "pair g++ c++11 %s %s %s" % (a, b, d)
        # two translation units with one header each, linked into one program
        for (c, s), a, b in itertools.product([("g++", "c++11")], self.headers, self.headers):
            if a <= b:
                yield "link %s %s %s %s" % (c, s, a, b)
        for c, s in itertools.product(cxx, stds):
            yield "link %s %s vdtMath.h vdtMath.h" % (c, s)
            yield "arrays %s %s" % (c, s)

    def execute(self, key):
        """Returns '' or the diagnostic."""
        w = key.split()
        kind, cxx, std, hs = w[0], w[1], "-std=" + w[2], w[3:]
        base = self.ctx.path("s-" + re.sub(r"\W", "_", key))
        cmd = [cxx, std, "-msse"] + self.include()

        def write(n, text):
            with open(n, "w") as f:
                f.write(text)

        made = []
        try:
            if kind in ("alone", "pair"):
                write(base + ".cpp", self.tu(hs, "f"))
                made += [base + ".cpp"]
                p = self.ctx.sh(cmd + ["-O0", "-fsyntax-only", base + ".cpp"], check=False)
                return "" if p.returncode == 0 else p.stderr
            if kind == "link":
                write(base + "a.cpp", self.tu(hs[:1], "f"))
                write(base + "b.cpp", self.tu(hs[1:], "g") + "double f(double);\nint main() { return f(0.5) + g(0.5) == 12345.0; }\n")
                srcs = [base + "a.cpp", base + "b.cpp"]
            else:
                names = self.declared()
                write(base + "a.cpp", "".join('#include "%s"\n' % h for h in self.headers) +
                      "void *volatile p;\nint main() {\n" + "".join("  p = (void *)&vdt::%s;\n" % n for n in names) + "  return 0;\n}\n")
                srcs = [base + "a.cpp"]
            made += srcs + [base + ".x"]
            d = os.path.dirname(self.lib)
            p = self.ctx.sh(cmd + ["-O0"] + srcs + ["-o", base + ".x", "-L" + d, "-lvdt", "-Wl,-rpath," + d], check=False)
            if p.returncode:
                return p.stderr
            p = self.ctx.sh([base + ".x"], check=False)
            return "" if p.returncode == 0 else "exit %d" % p.returncode
        finally:
            for f in made:
                if os.path.exists(f):
                    os.remove(f)

    def run(self):
        self.build()
        r = Result()
        sc = list(dict.fromkeys(self.scenarios()))
        out = self.ctx.parallel([lambda k=k: self.execute(k) for k in sc])
        names = self.declared()
        if not names and type(self) is Headers:
            raise CheckError("no array functions declared")
        kinds = {}
        for k, e in zip(sc, out):
            kinds[k.split()[0]] = kinds.get(k.split()[0], 0) + 1
            r.states += 1
            if e:
                lines = [l for l in e.splitlines() if "error" in l or "undefined" in l or "multiple" in l] or e.splitlines()
                r.violate(k, "%s: %s" % (k, lines[0][:300] if lines else "failed"))
        r.violations = r.violations[:20]
        # transitions: header inclusions and link steps performed
        r.transitions = sum(len(k.split()) - 3 if k.split()[0] in ("alone", "pair") else 3 for k in sc)
        r.validated = kinds.get("link", 0) + kinds.get("arrays", 0)   # programs linked and executed
        r.samples = sc[::max(1, len(sc) // 30)]
        r.counts = dict(kinds, headers=len(self.headers))
        if names:
            r.counts["declared_array_functions"] = len(names)
        r.bounds = "headers: " + " ".join(self.headers)
        return r

    def replay(self, key, verbose=False):
        e = self.execute(key)
        if verbose:
            print(e or "compiles and links")
        return bool(e)


class DiagnosticHeaders(Headers):
    technique = "exhaustive enumeration of inclusion programs compiled and linked with the real diagnostic headers"
    note = "all single headers and ordered pairs of the diagnostic set, both compilers, language standards C++11 to C++20"
    USES = {"vdtdiag_helper": "r += vdth::diffbit(x, 2.) + vdth::getbsasstr((float)x).size() + refMath::exp(x) + refMath::atan2f(1.f, 2.f); { vdth::timer t; t.start(); t.stop(); }",
            "vdtdiag_random": "{ randomPool1D<double> p(0, 1, 3); randomPool2D<float> q(0, 1, 0, 1, 3); r += p.getNumbers().size() + q.getNumbersX().size(); }",
            "vdtdiag_fcnResponse": "{ fcnResponse1D<double> o(\"a\", std::vector<double>(2, x), vdth::dpdpfunction(refMath::sin)); fcnResponse2D<float> q(\"a\", std::vector<float>(2), std::vector<float>(2), vdth::spsp2function(refMath::atan2f)); r += o.getOutput().size() + q.getOutput().size(); }",
            "vdtdiag_fcnComparison": "{ std::vector<double> v(2, x); fcnComparison1D<double> o(\"a\", v, v, v); fcnComparison2D<double> q(\"a\", v, v, v, v); o.print(); q.print(); }",
            "vdtdiag_fcnPerformance": "{ std::vector<double> v(2, x); fcnPerformance<double> o(\"a\", v, vdth::dpdpfunction(refMath::sin), 2); std::ostringstream t; o.print(t); r += t.str().size(); }",
            "vdtdiag_filePersistence": "{ std::ostringstream t; t << fpToHex<double>(x); std::istringstream u(t.str()); fpFromHex<double> h; u >> h; r += h.getValue(); }",
            "vdtdiag_fcnTuples": "{ randomPool1D<double> p(0, 1, 2); randomPool2D<double> q(0, 1, 0, 1, 2); std::vector<genfpfcn_tuple<double>> t; getFunctionTuples(&t, p, p, p, p); "
                                 "std::vector<genfpfcn2Dv_tuple<double>> u; getFunctionTuplesvect(&u, q); std::vector<std::string> n; getFunctionBasicNames(&n); r += t.size() + u.size() + n.size(); }",
            "vdtdiag_simpleCmd": "{ CmdOptions o; o.addOption(\"-a\", \"--aa\", \"b\"); r += o.isSet(\"-a\"); }",
            "stdwrap": "r += vdt::fast_sqrt(x) + vdt::fast_fmac(x, x, x);",
            "vdtMath": "r += vdt::fast_exp(x);"}

    def build(self):
        src, b = self.ctx.project("diaghdr", ["-DDIAG=ON"], ["vdt"])
        self.inc = src + "/include"
        self.headers = sorted(os.path.basename(h) for h in glob.glob(self.inc + "/diagnostic/*.h")) + ["stdwrap.h", "vdtMath.h"]
        if len(self.headers) < 4:
            raise CheckError("no diagnostic headers")
        libs = glob.glob(b + "/**/libvdt.*", recursive=True) + glob.glob(src + "/lib/libvdt.*")
        self.lib = libs[0]

    def uses(self, hs):
        return [self.USES[h[:-2]] for h in dict.fromkeys(hs) if h[:-2] in self.USES]

    def include(self):
        return ["-I" + self.inc, "-I" + self.inc + "/diagnostic"]

    def tu(self, hs, name):
        # the standard headers the statements themselves need come last
        t = super().tu(hs, name)
        i = t.rindex("double %s(double x)" % name)
        return t[:i] + "#include <sstream>\n" + t[i:]

    def declared(self):
        return []

    def scenarios(self):
        return [k for k in super().scenarios() if not k.startswith("arrays")]


class Preload(Check):
    technique = "exhaustive enumeration of the replacement symbols over an argument lattice, executed through the dynamic linker"
    note = "all symbols of preload builds with both compilers and two instruction sets; thorough: every single precision argument"
    C = ["asin", "acos", "atan", "atan2", "cos", "exp", "log", "sin", "tan", "tanh"]
    VARIANTS = {"gcc-sse": ("g++", []), "clang-sse": ("clang++", []), "gcc-avx2": ("g++", ["-DAVX2=ON"]), "clang-avx2": ("clang++", ["-DAVX2=ON"])}

    def lib(self, v):
        cxx, opts = self.VARIANTS[v]
        return self.ctx.library("pre-" + v, ["-DPRELOAD=ON"] + opts, cxx)

    def build(self):
        vs = list(self.VARIANTS)
        self.ctx.stage()
        jobs = [lambda v=v: self.lib(v) for v in vs] + [lambda: self.ctx.library("plain")]
        jobs += [lambda: self.ctx.compile("preload", ["preload.cpp"], ["-fno-builtin"], libs=("-ldl", "-lpthread")),
                 lambda: self.ctx.compile("preload2", ["preload.cpp"], ["-fno-builtin"], cxx="clang++", base=["-O1", "-std=c++11"], libs=("-ldl", "-lpthread"))]
        out = self.ctx.parallel(jobs)
        self.libs = dict(zip(vs, out))
        self.plain, self.bin, self.bin2 = out[len(vs):]

    def exports(self, lib):
        t = self.ctx.sh(["nm", "-D", "--defined-only", lib]).stdout
        return {l.split()[-1].split("@")[0] for l in t.splitlines() if l.split()}

    def system(self):
        s = set()
        for l in self.ctx.sh(["ldd", self.bin]).stdout.split():
            if re.search(r"/lib(m|c|stdc\+\+)\.so", l):
                s |= self.exports(l)
        if "sin" not in s:
            raise CheckError("cannot list the C library's symbols")
        return s

    def symbols(self, v):
        """Replaced system functions of a library: (missing, surplus)."""
        want = set(self.C) | {c + "f" for c in self.C} if v != "plain" else set()
        got = self.exports(self.libs[v] if v != "plain" else self.plain) & self.system()
        got = {g for g in got if not g.startswith("_Z")} - {"_init", "_fini", "_end", "_edata", "__bss_start"}
        return want - got, got - want

    def cmd(self, b, what, key):
        mode, v, *rest = key.split()
        env = {"MC_LITERALS": self.ctx.literals()}
        if mode == "pl":
            env["LD_PRELOAD"] = self.libs[v]
        return [b, what, mode, self.libs[v]] + rest, env

    def run(self):
        self.build()
        r = Result()
        for v in list(self.VARIANTS) + ["plain"]:
            miss, extra = self.symbols(v)
            r.states += 1
            if miss or extra:
                r.violate("sym %s" % v, "library %s: not replaced: %s; replaced in addition: %s" % (v, sorted(miss), sorted(extra)))
        vs = list(self.VARIANTS)
        for v in vs:
            for mode in ("dl", "pl"):
                if v.endswith("avx2") and mode == "pl":
                    continue
                full = ["full"] if self.ctx.thorough and v == "gcc-sse" and mode == "dl" else []
                cmd, env = self.cmd(self.bin, "run", "%s %s" % (mode, v))
                j = self.ctx.harness(cmd + full, env=env)
                for x in j["violations"]:
                    x["key"] = x["key"].replace(self.libs[v], v)
                j["samples"] = [s.replace(self.libs[v], v) for s in j["samples"]]
                r.add(j)
        for s in r.samples:
            cmd, env = self.cmd(self.bin2, "replay", s)
            if self.ctx.sh(cmd, check=False, env=env).returncode == 0:
                r.validated += 1
            else:
                r.trace_mismatches.append(s)
        r.bounds = "30 symbols (10 functions: double, single, C++ single overload) x lattice; libraries " + ", ".join(vs) + "; looked up in the library and through LD_PRELOAD"
        return r

    def replay(self, key, verbose=False):
        if key.startswith("sym "):
            miss, extra = self.symbols(key.split()[1])
            if verbose:
                print(miss, extra)
            return bool(miss or extra)
        cmd, env = self.cmd(self.bin, "replay", key)
        p = self.ctx.sh(cmd, check=False, env=env)
        if verbose:
            print(p.stdout.strip())
        if p.returncode not in (0, 1):
            raise CheckError("replay failed: " + p.stderr)
        return p.returncode == 1


class Options(Check):
    """Every combination of the build options, and every change from one to another."""
    technique = "exhaustive product of build options and all ordered pairs of configurations of one source tree, each built, installed, inspected and executed"
    note = "all 128 combinations of seven options with one compiler (thorough two), all ordered pairs of eight (thorough sixteen) configurations in one tree"
    NAMES = ("SSE", "AVX", "AVX2", "FMA", "BUILD_SHARED_LIBS", "PRELOAD", "DEBUG")
    DEFAULT = "g++ 1000100"
    PLAIN = ("acos", "asin", "atan", "atan2", "cos", "exp", "log", "sin", "tan", "tanh")

    def configs(self):
        every = ["".join(x) for x in itertools.product("01", repeat=7)]
        cfg = ["g++ " + x for x in every]
        cfg += ["clang++ " + x for x in every if self.ctx.thorough or x[0] == "1" and x[6] == "0"]
        few = ["10001p0".replace("p", p) for p in "01"] + ["10000p0".replace("p", p) for p in "01"]
        few += [x[0] + "1" + x[2:] for x in few]
        if self.ctx.thorough:
            few += [x[:6] + "1" for x in few]
        return cfg, [("g++ " + a, "g++ " + b) for a in few for b in few if a != b]

    def configure(self, tree, cfg):
        """Configures, builds and installs in the given copy of the tree."""
        cxx, bits = cfg.split()
        b, prefix = os.path.join(tree, "_build"), os.path.join(tree, "_inst")
        shutil.rmtree(prefix, ignore_errors=True)
        env = {"CXX": cxx, "CC": "gcc" if cxx == "g++" else "clang"}
        for c in (["cmake", "-S", tree, "-B", b, "-G", "Ninja", "-DCMAKE_INSTALL_PREFIX=" + prefix] + ["-D%s=%s" % x for x in zip(self.NAMES, bits)],
                  ["ninja", "-C", b, "-j2"], ["cmake", "--install", b]):
            p = self.ctx.sh(c, env=env, check=False)
            if p.returncode:
                return None, "%s fails: %s" % (" ".join(c[:1] + c[1:2]), (p.stdout + p.stderr)[-300:])
        return prefix, ""

    def inspect(self, prefix, name):
        """What an installation consists of and computes."""
        d = {"files": sorted(os.path.relpath(os.path.join(a, f), prefix) for a, _, fs in os.walk(prefix) for f in fs)}
        libs = [f for f in d["files"] if re.search(r"libvdt\.(so|a)$", f)]
        d["libs"] = [os.path.basename(f) for f in libs]
        d["headers"] = [f for f in d["files"] if f.endswith(".h")]
        if len(libs) != 1:
            return d
        so = os.path.join(prefix, libs[0])
        sym = self.ctx.sh(["nm", "--defined-only", "-g"] + ([] if so.endswith(".a") else ["-D"]) + [so]).stdout
        sym = {l.split()[-1] for l in sym.splitlines() if re.search(r" [TW] ", l)}
        d["arrays"] = sorted(x for x in sym if x.startswith("_ZN3vdt") and re.search(r"vEj", x))
        d["plain"] = sorted(x for x in sym if re.sub("f$", "", x) in self.PLAIN)
        asm = self.ctx.sh(["objdump", "-d", "--no-show-raw-insn", so]).stdout
        d["ymm"] = "%ymm" in asm
        d["vex"] = bool(re.search(r"\tv(mov|add|mul|sub|div|cvt)\w+\s", asm))
        d["fma"] = bool(re.search(r"\tvfn?m(add|sub)", asm))
        d["debug"] = ".debug_info" in self.ctx.sh(["readelf", "-SW", so]).stdout
        # libraries of the same contents are executed once
        text = asm[asm.index("\n\n"):] + self.ctx.sh(["objdump", "-s", "-j", ".rodata", "-j", ".rodata.cst*", so], check=False).stdout[len(so):]
        key = hashlib.sha1(text.encode()).hexdigest() + "".join(d["plain"][:1])
        with self.lock:
            mine = self.memo.setdefault(key, {"lock": threading.Lock()})
        with mine["lock"]:
            if "dump" not in mine:
                ld = os.path.dirname(so)
                libs = [so] if so.endswith(".a") else ["-L" + ld, "-lvdt", "-Wl,-rpath," + ld]
                mine["bin"] = self.ctx.compile(name + ".run", ["configs.cpp"], inc=[os.path.join(prefix, "include/vdt")], libs=libs + ["-lpthread"])
                self.ctx.sh([mine["bin"], "dump", mine["bin"] + ".bin"], env=self.env)
                with open(mine["bin"] + ".bin", "rb") as f:
                    mine["dump"] = f.read()
                os.remove(mine["bin"] + ".bin")
                mine["wrong"] = self.ctx.harness([mine["bin"], "judge"])["violations"] if d["fma"] else []
        d.update(dump=mine["dump"], bin=mine["bin"], wrong=mine["wrong"])
        return d

    def judge(self, cfg, d):
        """First thing wrong with the installation of a configuration."""
        bits = dict(zip(self.NAMES, (c == "1" for c in cfg.split()[1])))
        ref = self.ref
        want = ["libvdt.so" if bits["BUILD_SHARED_LIBS"] else "libvdt.a"]
        if d["libs"] != want:
            return "libraries %s instead of %s" % (d["libs"], want)
        if d["headers"] != ref["headers"]:
            return "other headers installed: %s" % sorted(set(d["headers"]) ^ set(ref["headers"]))
        if d["arrays"] != ref["arrays"]:
            return "other array functions: %s" % sorted(set(d["arrays"]) ^ set(ref["arrays"]))[:4]
        want = sorted(x + f for x in self.PLAIN for f in ("", "f")) if bits["PRELOAD"] else []
        if d["plain"] != want:
            return "replaces the C functions %s instead of %s" % (d["plain"], want)
        avx = bits["AVX"] or bits["AVX2"]
        if avx and not d["ymm"]:
            return "built without the requested vector instructions"
        if not avx and not bits["FMA"] and (d["ymm"] or d["vex"]):
            return "contains vector instructions which were not requested"
        if d["fma"] != bits["FMA"]:
            return "fused multiply-add instructions: %s, requested: %s" % (d["fma"], bits["FMA"])
        if d["debug"] != bits["DEBUG"]:
            return "debug information: %s, requested: %s" % (d["debug"], bits["DEBUG"])
        if not bits["FMA"]:
            if len(d["dump"]) != len(ref["dump"]):
                return "other number of evaluations"
            if d["dump"] != ref["dump"]:
                i = next(i for i in range(len(ref["dump"]) // 8) if d["dump"][8 * i:8 * i + 8] != ref["dump"][8 * i:8 * i + 8])
                return "%s, other bits than with the default options" % self.ctx.sh([ref["bin"], "at", str(i)], env=self.env).stdout.strip()
        else:
            if d["wrong"]:
                return d["wrong"][0]["text"]
        return ""

    def visit(self, path, k):
        """Configures one tree in turn as the path says; judges the last one."""
        tree = self.ctx.path("opt%s" % k)
        shutil.copytree(self.ctx.stage(), tree, symlinks=True)
        try:
            for cfg in path:
                prefix, err = self.configure(tree, cfg)
                if err:
                    return err
            d = self.inspect(prefix, "opt%s" % k)
            err = self.judge(path[-1], d)
            return err
        finally:
            shutil.rmtree(tree, ignore_errors=True)

    def build(self):
        self.env = {"MC_LITERALS": self.ctx.literals()}
        self.ctx.stage()
        self.memo, self.lock = {}, threading.Lock()
        tree = self.ctx.path("optref")
        shutil.copytree(self.ctx.stage(), tree, symlinks=True)
        prefix, err = self.configure(tree, self.DEFAULT)
        if err:
            raise CheckError("default configuration: " + err)
        self.ref = self.inspect(prefix, "optref")
        if "dump" not in self.ref:
            raise CheckError("default configuration installs no library")

    def run(self):
        self.build()
        r = Result()
        cfg, pairs = self.configs()
        paths = [(c,) for c in cfg] + pairs
        n = len(self.ref["dump"]) // 8
        for path, err in zip(paths, self.ctx.parallel([lambda i=i, p=p: self.visit(p, i) for i, p in enumerate(paths)])):
            r.states += 1
            if err:
                r.violate("|".join(path), "%s: %s" % (" then ".join(self.say(c) for c in path), err))
        r.transitions = n * len(self.memo)
        r.counts = {"configurations": len(cfg), "reconfigurations": len(pairs), "different_libraries": len(self.memo), "evaluations_per_library": n, "failing_states": len(r.violations)}
        r.bounds = "options %s: %d combinations, %d ordered pairs in one tree; %d evaluations each" % (", ".join(self.NAMES), len(cfg), len(pairs), n)
        # the same states again by a program of the other compiler
        ld = self.ctx.path("optref/_inst/lib")
        b = self.ctx.compile("optclang", ["configs.cpp"], cxx="clang++", base=["-O1", "-std=c++11"], inc=[self.ctx.path("optref/_inst/include/vdt")],
                             libs=["-L" + ld, "-lvdt", "-Wl,-rpath," + ld, "-lpthread"])
        for k in range(32):
            i = (n - 1) * k // 31
            x, y = [self.ctx.sh([z, "at", str(i)], env=self.env).stdout for z in (self.ref["bin"], b)]
            r.samples.append(x.strip())
            if x == y:
                r.validated += 1
            else:
                r.trace_mismatches.append(x)
        return r

    def say(self, cfg):
        cxx, bits = cfg.split()
        return cxx + "".join(" %s=%s" % x for x in zip(self.NAMES, bits))

    def replay(self, key, verbose=False):
        err = self.visit(key.split("|"), "replay")
        if verbose:
            print(err or "holds")
        return bool(err)


CHECKS = {"C18": Builds, "C19": Headers, "C20": Preload, "C37": Options, "C43": DiagnosticHeaders}
