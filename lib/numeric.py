"""Numerical contracts of the scalar functions (C01-C13, C34, C36)."""
import re

from core import Check, link

SPACE = ("single precision: all 2^32 bit patterns; double precision: every exponent x mantissa lattice x sign, dense "
         "lattice on the active binades, windows around every numeric literal of the current headers and derived values")


class Math1(Check):
    mode = 0
    rmode = "acc"
    assumptions = ["glibc double / long double functions are accurate to well below the bounds"]

    def build(self):
        jobs = [lambda p=p: self.ctx.compile("m%d" % p, ["math1.cpp"], ["-DMC_MODE=%d" % self.mode, "-DMC_PART=%d" % p])
                for p in self.parts()]
        jobs.append(lambda: self.ctx.compile("echo", ["math1.cpp"], ["-DMC_MODE=0"], cxx="clang++", base=["-O0", "-std=c++11"]))
        *self.bin, self.echo = self.ctx.parallel(jobs)

    def parts(self):
        return (0,) if self.mode == 0 else (1, 2)

    def run(self):
        from core import Result
        self.build()
        r = Result()
        r.bounds = SPACE
        for b in self.bin:
            r.add(self.ctx.harness([b] + self.args() + [self.ctx.tier]))
        self.traces(r)
        return r

    def traces(self, r):
        """Sample and worst traces again, through a differently compiled binary."""
        todo = {}
        for s in r.samples + [w["at"] for w in r.worst.values()]:
            m = re.fullmatch(r"(\S+) ([fd]) ([0-9a-f]+) -> ([0-9a-f]+)", s)
            if m:
                todo.setdefault((m.group(1), m.group(2)), []).append((m.group(3), int(m.group(4), 16)))
        for (fn, t), l in sorted(todo.items()):
            out = self.ctx.sh([self.echo, "echo", fn, t] + [x for x, _ in l]).stdout.split()
            nan = (lambda u: (u & 0x7fffffff) > 0x7f800000) if t == "f" else (lambda u: (u & (1 << 63) - 1) > 0x7ff << 52)
            for (x, y), o in zip(l, out):
                o = int(o, 16)
                if o == y or nan(o) and nan(y):
                    r.validated += 1
                else:
                    r.trace_mismatches.append("%s %s %s: %x here, %x without optimisation" % (fn, t, x, y, o))

    def replay(self, key, verbose=False):
        return any(self.replay_with(b, key, verbose) for b in self.bin)


class Atan2(Math1):
    """All pairs of the two-argument lattices."""
    what = "acc"

    def build(self):
        self.bin2, self.echo2 = self.ctx.parallel([
            lambda: self.ctx.compile("m2", ["math2.cpp"]),
            lambda: self.ctx.compile("echo2", ["math2.cpp"], cxx="clang++", base=["-O0", "-std=c++11"])])

    def run(self):
        from core import Result
        self.build()
        r = Result()
        r.bounds = ("all pairs of (all exponents x mantissas x signs, zeros), all pairs of source literals and neighbours; every positive "
                    "normal float against +-1; the double precision arc tangent space against fixed partners, both orders")
        r.add(self.ctx.harness([self.bin2, "acc", self.ctx.tier]))
        self.pairs(r)
        return r

    def pairs(self, r):
        todo = {}
        for s in r.samples + [w["at"] for w in r.worst.values()]:
            m = re.fullmatch(r"atan2 ([fd]) ([0-9a-f]+) ([0-9a-f]+) -> ([0-9a-f]+)", s)
            if m:
                todo.setdefault(m.group(1), []).append(m.groups()[1:])
        for t, l in sorted(todo.items()):
            out = self.ctx.sh([self.echo2, "echo", t] + [x for y in l for x in y[:2]]).stdout.split()
            for (y, x, g), o in zip(l, out):
                if int(o, 16) == int(g, 16):
                    r.validated += 1
                else:
                    r.trace_mismatches.append("atan2 %s %s %s: %s here, %s without optimisation" % (t, y, x, g, o))

    def replay(self, key, verbose=False):
        return self.replay_with(self.bin2, key, verbose)


def family(name):
    class F(Math1):
        def args(self):
            return ["acc", name]
    return F


def other(m, mode):
    class F(Math1):
        mode = m

        def args(self):
            return [mode]
    return F


class Fpe(Atan2):
    """Exceptions: one-argument functions, pairs, and the arrays of the library."""
    mode = 3
    assumptions = []

    def args(self):
        return ["fpe"]

    def build(self):
        lib = []

        def arrays():
            so = self.ctx.library()
            return self.ctx.compile("arr", ["arrays.cpp"], libs=link(so))
        self.ctx.parallel([lambda: Math1.build(self), lambda: Atan2.build(self), lambda: lib.append(arrays())], 3)
        self.arr = lib[0]
        self.plain = dict(zip(("O0", "O1", "O2"), self.ctx.parallel(
            [lambda o=o: self.ctx.compile("traps" + o, ["traps.cpp"], base=["-" + o, "-std=c++11"]) for o in ("O0", "O1", "O2")])))

    def run(self):
        from core import Result
        self.build()
        r = Result()
        r.bounds = SPACE + "; all pairs of the two-argument lattices; in-domain arrays of every length up to a bound; single calls at three further optimisation levels on the argument lattice"
        for b in self.bin:
            r.add(self.ctx.harness([b, "fpe", self.ctx.tier]))
        r.add(self.ctx.harness([self.bin2, "fpe", self.ctx.tier]))
        r.add(self.ctx.harness([self.arr, "fpe", self.ctx.tier]))
        for o, b in self.plain.items():
            j = self.ctx.harness([b, "run"])
            for v in j["violations"]:
                v.update(key=o + " " + v["key"], text=v["text"] + " at -" + o)
            r.add(j)
        self.traces(r)
        self.pairs(r)
        return r

    def replay(self, key, verbose=False):
        k = key.split()
        if k[0] in self.plain:
            return self.replay_with(self.plain[k[0]], " ".join(k[1:]), verbose)
        if len(k) == 6:
            return self.replay_with(self.arr, key, verbose)
        if len(k) == 4 and k[1] in "fd":
            return self.replay_with(self.bin2, key, verbose)
        return any(self.replay_with(b, key, verbose) for b in self.bin)


class Environment(Math1):
    """Results under the caller's floating point environment against the default one."""
    assumptions = ["the environment is that of the SSE control register"]

    def build(self):
        self.bin, self.echo = self.ctx.parallel([
            lambda: self.ctx.compile("env", ["env.cpp"], ["-frounding-math"]),
            lambda: self.ctx.compile("env2", ["env.cpp"], ["-frounding-math"], cxx="clang++", base=["-O1", "-std=c++11"])])

    def run(self):
        from core import Result
        self.build()
        r = Result()
        r.bounds = ("single precision: every %spattern; double precision: a fixed %s of the lattices of the accuracy properties; pairs of "
                    "the two-argument lattice; each in the default environment, with subnormals flushed and in three rounding directions"
                    % (("", "eighth") if self.ctx.thorough else ("16th ", "quarter")))
        r.add(self.ctx.harness([self.bin, "run", self.ctx.tier]))
        for s in r.samples:
            fn, t, x = s.split()[:3]
            if self.ctx.sh([self.echo, "echo", fn, t, x]).stdout.strip() == s:
                r.validated += 1
            else:
                r.trace_mismatches.append(s)
        return r

    def replay(self, key, verbose=False):
        return self.replay_with(self.bin, key, verbose)


class Average(Math1):
    """Mean differing bits over equally spaced arguments."""

    def build(self):
        self.bin, self.echo = self.ctx.parallel([
            lambda: self.ctx.compile("average", ["average.cpp"]),
            lambda: self.ctx.compile("average2", ["average.cpp"], cxx="clang++", base=["-O1", "-std=c++11"])])
        self.env = {"MC_DENSE": "1"} if self.ctx.thorough else {}

    def run(self):
        from core import Result
        self.build()
        r = Result()
        r.bounds = ("11 functions x both precisions: 2^%d equally spaced arguments of the documented interval, whole and in 256 slices; every binade "
                    "of the domain with 2^%d arguments" % ((26, 17) if self.ctx.thorough else (21, 12)))
        r.add(self.ctx.harness([self.bin, "run"], env=self.env))
        r.samples = [w["at"] for w in r.worst.values()]
        for s in r.samples:
            if self.ctx.sh([self.echo, "echo"] + s.split(" -> ")[0].split(), env=self.env).stdout.strip() == s:
                r.validated += 1
            else:
                r.trace_mismatches.append(s)
        return r

    def replay(self, key, verbose=False):
        return self.replay_with(self.bin, key, verbose, env=self.env)


class Exact(Math1):
    """Values that are exact: limits of small and large arguments, landmarks."""
    technique = "exhaustive enumeration of arguments on the real functions, exact values as oracle"
    note = "single precision: all arguments from 2^-32 on, every 16th below (thorough all); double precision: all exponents x 1024 mantissas; up to six builds"
    assumptions = ["the stated decimal expansions of pi are rounded correctly by the compiler"]
    BUILDS = {"g++": ("g++", ["-O3"]), "clang++": ("clang++", ["-O1"]), "g++-fma": ("g++", ["-O3", "-mavx2", "-mfma"]), "clang++-fma": ("clang++", ["-O2", "-mavx2", "-mfma"]),
              "g++-O0": ("g++", ["-O0"]), "g++-512": ("g++", ["-O3", "-mavx512f", "-mavx512dq", "-mfma"])}

    def build(self):
        flags = open("/proc/cpuinfo").read()
        names = [n for n, (_, o) in self.BUILDS.items() if all("-m" not in x or x[2:] in flags for x in o)]
        self.bins = dict(zip(names, self.ctx.parallel([
            lambda n=n: self.ctx.compile("exact-" + n, ["exact.cpp"], base=self.BUILDS[n][1] + ["-std=c++11"], cxx=self.BUILDS[n][0]) for n in names])))

    def run(self):
        from core import Result
        self.build()
        r = Result()
        r.bounds = ("single precision: every argument of the stated ranges from 2^-32 on, every %sone below; double precision and pairs: every exponent x 1024 mantissas, "
                    "neighbourhoods of the constants; builds %s, of which the first has all arguments, the others %s"
                    % (("", ", ".join(self.bins), "too") if self.ctx.thorough else ("16th ", ", ".join(self.bins), "the lattices of both precisions")))
        for n, b in self.bins.items():
            j = self.ctx.harness([b, "run", self.ctx.tier if n == "g++" or self.ctx.thorough and n != "g++-O0" else "lattice"])
            for v in j["violations"]:
                v["key"] = n + " " + v["key"]
            j["counts"] = {"arguments_" + n: j["states"]}
            if n != "g++":
                j["samples"] = []
            r.add(j)
        for s in r.samples:
            if self.ctx.sh([self.bins["clang++"], "echo"] + s.split(" -> ")[0].split()).stdout.strip() == s:
                r.validated += 1
            else:
                r.trace_mismatches.append(s)
        return r

    def replay(self, key, verbose=False):
        n, k = key.split(None, 1)
        return self.replay_with(self.bins[n], k, verbose)


CHECKS = {"C01": family("exp"), "C02": family("log"), "C03": family("sincos"), "C04": family("tan"),
          "C05": family("tanh"), "C06": family("arcsin"), "C07": family("atan"), "C08": Atan2, "C09": family("isqrt"),
          "C10": family("inv"), "C11": other(1, "symmetry"), "C12": other(2, "range"), "C13": Fpe, "C34": Environment, "C36": Average, "C44": Exact}
