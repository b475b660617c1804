"""Instrumented executions: C38 undefined operations, memory errors and leftovers,
C46 contents of fresh memory."""
import array
import itertools
import os
import re
import shutil
import tempfile

from core import Check, CheckError, Result, JOBS, link
from programs import Programs, build_programs

# the left operand of a shift is not judged: its rules differ between language standards
UNDEFINED = ["-fsanitize=undefined", "-fsanitize=float-cast-overflow", "-fno-sanitize=shift-base", "-fno-sanitize=vptr"]
ABORTING = ["-fsanitize=address"] + UNDEFINED + ["-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
ENV = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=0", "UBSAN_OPTIONS": "abort_on_error=1:print_stacktrace=0"}
EXPLORERS = ("hexio", "pool", "response", "comparison", "cut", "damage", "cmdline", "diffbit", "timing", "tuples", "prints", "headers")
REPORT = re.compile(r"AddressSanitizer|runtime error:|Assertion '|stack smashing|double free|corrupted")
DEEPER = ("hexio", "comparison", "response", "pool")   # larger spaces in the thorough tier
CXX = ("g++", "clang++")
# program: fixed parts, further arguments, how many of them
LINES = {"vdtArithmBenchmark": ([["-s=0"], ["-s=1"], ["-s=17"]], ["-n=k", "--nick=", "-n", "-h", "-x", "", "-s=2"], 2),
         "vdtPerfBenchmark": ([["-s=1", "-r=1"], ["-s=9", "-r=2"]], ["-n=k", "-p=Exp", "-p=(", "-p=", "-h", "-x", "-n", "-m=-1", "-M=1", "-M=x"], 2),
         "vdtArithmComparison": ([[]], ["-n=k", "-R=a,b", "-R=a", "-R=none", "-R=,", "-R=cut,a", "-T=a,b", "-T=b", "-T=cut", "-T=", "-T", "-h", "-x"], 3)}


class Safety(Check):
    technique = "exhaustive enumeration of arguments, operation sequences, file faults and command lines executed on instrumented builds"
    note = "in-domain arguments: every 64th (thorough every) single precision pattern, the double precision lattice, all pairs of the two-argument lattice; reduced spaces of the diagnostic explorers; all pairs of program arguments"
    assumptions = ["the compiler's instrumentation reports every error of the kinds it names"]

    def build(self):
        c = self.ctx

        def math(cxx, opt):
            o = c.path("undef-%s.o" % cxx)
            c.compile(o, ["traps.cpp"], ["-c", "-w", "-DMC_UNDEF"] + UNDEFINED, cxx=cxx, base=[opt, "-std=c++11"], libs=())
            out = c.path("undef-" + cxx)
            c.sh([cxx, o, "-o", out, "-lpthread"])
            return out

        def programs():
            w = c.path("cxx")
            with open(w, "w") as f:
                f.write('#!/bin/sh\nexec g++ "$@" -w -g1 %s\n' % " ".join(ABORTING))
            os.chmod(w, 0o755)
            return build_programs(c, w)[0]

        so = c.library()
        jobs = [programs, lambda: math("g++", "-O2"), lambda: math("clang++", "-O1")]
        for e in EXPLORERS:
            for cxx in CXX:
                jobs.append(lambda e=e, cxx=cxx: c.compile("%s-%s" % (e, cxx), [e + ".cpp"], ["-w", "-DMC_SAN"] + ABORTING, cxx=cxx, base=["-O1", "-std=c++11"], libs=link(so)))
        src, files = c.library_sources()
        inc = [src + "/include", src + "/include/diagnostic"]
        for cxx in CXX:
            jobs.append(lambda cxx=cxx: c.compile("arraysan-" + cxx, ["arraysan.cpp"] + files, ["-w", "-DMC_SAN"] + ABORTING, cxx=cxx, base=["-O2", "-std=c++11"], inc=inc))
        done = c.parallel(jobs)
        self.progs = Programs(c, done[0])
        self.math = dict(zip(CXX, done[1:3]))
        self.bin = dict(zip(list(itertools.product(EXPLORERS, CXX)) + [("arraysan", x) for x in CXX], done[3:]))
        self.env = dict(ENV, MC_SCRATCH=c.files())
        self.data(self.progs)

    def data(self, progs):
        """Files for the comparison program: two complete ones and a cut one."""
        d = progs.fresh()
        p = self.ctx.sh([progs.progs["vdtArithmBenchmark"], "-n=k", "-s=5"], cwd=d, env=ENV, check=False)
        made = sorted(f for f in os.listdir(d) if "Fast_Exp__" in f or "__Exp__" in f)
        self.files, self.broken = self.ctx.path("cmp"), ""
        os.makedirs(self.files)
        if p.returncode or len(made) < 2:
            self.broken = p.stderr
            made = ["none", "none"]
            open(os.path.join(d, "none"), "w").close()
        for name, f in zip("ab", made):
            shutil.copy(os.path.join(d, f), os.path.join(self.files, name))
        text = open(os.path.join(self.files, "a")).read()
        with open(os.path.join(self.files, "cut"), "w") as f:
            f.write(text[:len(text) - 30])
        shutil.rmtree(d)

    def lines(self):
        for prog, (fixed, more, n) in LINES.items():
            for f in fixed:
                for k in range(n + 1):
                    for a in itertools.product(range(len(more)), repeat=k):
                        yield prog, fixed.index(f), a

    def line(self, prog, f, a):
        """One execution of an instrumented program; what its instrumentation reported."""
        fixed, more, _ = LINES[prog]
        d = self.progs.fresh([os.path.join(self.files, x) for x in ("a", "b", "cut")])
        p = self.ctx.sh([self.progs.progs[prog]] + fixed[f] + [more[i] for i in a], cwd=d, env=ENV, check=False)
        shutil.rmtree(d)
        hit = [l for l in p.stderr.splitlines() if REPORT.search(l)]
        if hit:
            return hit[0].strip()[:300]
        return "killed by signal %d" % -p.returncode if p.returncode in (-4, -7, -8, -11) else None

    def run(self):
        self.build()
        r = Result()
        c = self.ctx
        r.bounds = ("in-domain arguments: %s single precision pattern, double precision lattice with literal neighbourhoods, all pairs of the two-argument lattices, with two compilers; "
                    "array functions of length 0..%d at four element offsets in exactly sized buffers; lists, histories to depth 3, file cuts, single byte faults, argument vectors and sequences of the diagnostic explorers, each executed twice; "
                    "all vectors of up to 2 (comparison 3) further arguments of the three programs" % (("every", 200) if c.thorough else ("every 64th", 40)))
        for cxx, b in self.math.items():
            j = c.harness([b, "run", c.tier])
            for v in j["violations"]:
                v["key"] = "math %s %s" % (cxx, v["key"])
            j["counts"] = {"arguments": j["states"]}
            r.add(j)
        jobs = [(e, p) for e in EXPLORERS + ("arraysan",) for p in range(JOBS)]
        for (e, p), j in zip(jobs, c.parallel([lambda e=e, p=p: c.harness([self.bin[e, "g++"], "run", "thorough" if c.thorough and e == "arraysan" else "quick" if c.thorough and e in DEEPER else "small", str(p), str(JOBS)], env=self.env) for e, p in jobs])):
            for v in j["violations"]:
                v["key"] = "%s %s" % (e, v["key"])
            j["counts"] = {e: j["states"]}
            j["samples"] = ["%s %s" % (e, s) for s in j["samples"]] if p == 0 else []
            r.add(j)
        for s in r.samples:
            if self.replay_with(self.bin[s.split()[0], "clang++"], s.split(None, 1)[1], env=self.env):
                r.trace_mismatches.append(s)
            else:
                r.validated += 1
        lines = list(self.lines())
        for (prog, f, a), e in zip(lines, c.parallel([lambda x=x: self.line(*x) for x in lines])):
            r.states += 1
            r.transitions += 1
            r.counts[prog] = r.counts.get(prog, 0) + 1
            if e:
                r.violate("line %s %d %s" % (prog, f, ",".join(map(str, a)) or "-"), "%s %s: %s" % (prog, " ".join(LINES[prog][0][f] + [LINES[prog][1][i] for i in a]), e))
        return r

    def replay(self, key, verbose=False):
        k = key.split()
        if k[0] == "math":
            return self.replay_with(self.math[k[1]], " ".join(k[2:]), verbose)
        if k[0] == "line":
            e = self.line(k[1], int(k[2]), [int(i) for i in k[3].split(",")] if k[3] != "-" else [])
            if verbose:
                print(e or "nothing reported")
            return bool(e)
        return self.replay_with(self.bin[k[0], "g++"], " ".join(k[1:]), verbose, env=self.env)


FILLS = {"zero": "0", "pattern": "65"}


class Memory(Check):
    """Every state is executed twice: local variables and fresh or released memory start as
    zeros in one execution and as a pattern in the other, and nothing else differs."""
    technique = "exhaustive enumeration of arguments, operation sequences, file faults and command lines, each executed with two different contents of fresh memory"
    note = "lattices of all functions, array lengths 0..70, reduced spaces of the diagnostic explorers, all pairs of program arguments"
    assumptions = ["the compiler's option for the initial contents of local variables changes nothing else"]

    def build(self):
        c = self.ctx
        so = c.library()
        src, files = c.library_sources()
        inc = [src + "/include", src + "/include/diagnostic"]
        self.new = c.compile("fillnew.so", ["fillnew.cpp"], ["-shared", "-fPIC", "-w"], base=["-O1", "-std=c++14"], libs=(), inc=[])

        def programs(f):
            w = c.path("cxx-" + f)
            with open(w, "w") as g:
                g.write('#!/bin/sh\nexec clang++ "$@" -w -ftrivial-auto-var-init=%s\n' % f)
            os.chmod(w, 0o755)
            return build_programs(c, w, "progs-" + f)[0]

        jobs = [lambda: c.compile("fill", ["fill.cpp"], ["-w"], libs=("-lpthread", "-ldl"), inc=[])]
        jobs += [lambda f=f: c.compile("part-%s.so" % f, ["fill.cpp"] + files, ["-w", "-DPART", "-shared", "-fPIC", "-fvisibility=hidden", "-ftrivial-auto-var-init=" + f],
                                       cxx="clang++", base=["-O1", "-std=c++11"], inc=inc, libs=()) for f in FILLS]
        jobs += [lambda f=f: programs(f) for f in FILLS]
        keys = list(itertools.product(EXPLORERS, FILLS))
        jobs += [lambda e=e, f=f: c.compile("%s-%s" % (e, f), [e + ".cpp"], ["-w", "-DMC_DIGEST", "-ftrivial-auto-var-init=" + f], cxx="clang++", base=["-O1", "-std=c++11"], libs=link(so)) for e, f in keys]
        c.stage()
        done = c.parallel(jobs)
        self.fill, self.parts = done[0], done[1:3]
        self.progs = {f: Programs(c, done[3 + i]) for i, f in enumerate(FILLS)}
        self.bin = dict(zip(keys, done[5:]))
        self.env = {f: {"LD_PRELOAD": self.new, "MC_FILL": b} for f, b in FILLS.items()}
        self.data(self.progs["zero"])

    data = Safety.data

    def dir(self):
        """A scratch directory of its own: the same file names in every execution."""
        return {"MC_SCRATCH": tempfile.mkdtemp(dir=self.ctx.files())}

    def space(self, e):
        return "quick" if self.ctx.thorough and e in DEEPER else "small"

    def explore(self, e, p, f):
        """One part of a space: what the explorer says and the hash of every state."""
        d = self.dir()
        j = self.ctx.harness([self.bin[e, f], "run", self.space(e), str(p), str(JOBS)], env=dict(self.env[f], **d))
        h = array.array("Q")
        name = os.path.join(d["MC_SCRATCH"], "digests")
        if not j["violations"]:
            h.fromfile(open(name, "rb"), os.path.getsize(name) // 8)
        shutil.rmtree(d["MC_SCRATCH"])
        return j, h

    def lines(self):
        for prog, (fixed, more, n) in LINES.items():
            for f in range(len(fixed)):
                for k in range(min(n, 2) + 1):
                    for a in itertools.product(range(len(more)), repeat=k):
                        yield prog, f, a

    def outcome(self, fill, prog, f, a):
        fixed, more, _ = LINES[prog]
        g = self.progs[fill]
        d = self.progs["zero"].fresh([os.path.join(self.files, x) for x in ("a", "b", "cut")])
        p = self.ctx.sh([g.progs[prog]] + fixed[f] + [more[i] for i in a], cwd=d, env=self.env[fill], check=False)
        made = {x: open(os.path.join(d, x), errors="replace").read() for x in sorted(os.listdir(d))}
        shutil.rmtree(d)
        return p.returncode, p.stdout.replace(g.progs[prog], prog), made

    def line(self, prog, f, a):
        x, y = (self.outcome(k, prog, f, a) for k in FILLS)
        # an outcome that varies by itself is no subject here
        if x == y or x != self.outcome("zero", prog, f, a) or y != self.outcome("pattern", prog, f, a):
            return None
        if x[0] != y[0]:
            return "exit status %d or %d, depending on what fresh memory held" % (x[0], y[0])
        return "%s, depending on what fresh memory held" % ("other screen output" if x[1] != y[1] else "other files")

    def run(self):
        self.build()
        r = Result()
        c = self.ctx
        r.bounds = ("functions: lattices of both precisions, array lengths 0..70; lists, histories to depth 3, file cuts, single byte faults, argument vectors and sequences of the diagnostic explorers; "
                    "all vectors of up to 2 further arguments of the three programs; contents of fresh memory: all zero, all pattern")
        j = c.harness([self.fill, "run", c.tier] + self.parts)
        for v in j["violations"]:
            v["key"] = "math " + v["key"]
        j["counts"] = {"evaluations": j["states"]}
        r.add(j)
        jobs = [(e, p, f) for e in EXPLORERS for p in range(JOBS) for f in FILLS]
        done = dict(zip(jobs, c.parallel([lambda e=e, p=p, f=f: self.explore(e, p, f) for e, p, f in jobs])))
        for e in EXPLORERS:
            found = 0
            for p in range(JOBS):
                (x, dx), (y, dy) = (done[e, p, f] for f in FILLS)
                samples = ["%s %s" % (e, s) for s in x["samples"]] if p == 0 else []
                r.add({"states": x["states"], "transitions": x["transitions"] + y["transitions"], "counts": {e: x["states"]}, "violations": [], "samples": samples})
                if x["violations"] or y["violations"]:   # an execution ended early
                    bad = [v["key"] for v in x["violations"] + y["violations"]][:1]
                elif len(dx) != len(dy):
                    raise CheckError("%s: %d and %d states" % (e, len(dx), len(dy)))
                else:
                    bad = [c.sh([self.bin[e, "zero"], "key", self.space(e), str(p), str(JOBS), str(i)], env=self.dir()).stdout.strip() for i in [i for i in range(len(dx)) if dx[i] != dy[i]][:2] if found < 4]
                for k in bad:
                    if self.replay(e + " " + k):
                        found += 1
                        r.violate(e + " " + k, "the outcome depends on what fresh memory held: %s %s" % (e, k))
        for s in r.samples:
            if self.replay(s):
                r.trace_mismatches.append(s)
            else:
                r.validated += 1
        lines = list(self.lines())
        for (prog, f, a), e in zip(lines, c.parallel([lambda x=x: self.line(*x) for x in lines])):
            r.states += 1
            r.transitions += 2
            r.counts[prog] = r.counts.get(prog, 0) + 1
            if e:
                r.violate("line %s %d %s" % (prog, f, ",".join(map(str, a)) or "-"), "%s %s: %s" % (prog, " ".join(LINES[prog][0][f] + [LINES[prog][1][i] for i in a]), e))
        return r

    def replay(self, key, verbose=False):
        k, c = key.split(), self.ctx
        if k[0] == "math":
            return self.replay_with(self.fill, " ".join(self.parts + k[1:]), verbose)
        if k[0] == "line":
            e = self.line(k[1], int(k[2]), [int(i) for i in k[3].split(",")] if k[3] != "-" else [])
            if verbose:
                print(e or "same outcome")
            return bool(e)
        seen = []
        for f in list(FILLS) * 2:
            if len(seen) == 2 and seen[0] == seen[1]:
                return False
            d = self.dir()
            p = c.sh([self.bin[k[0], f], "replay"] + k[1:], env=dict(self.env[f], **d), check=False)
            shutil.rmtree(d["MC_SCRATCH"])
            if p.returncode not in (0, 1):
                raise CheckError("replay failed (%d): %s" % (p.returncode, p.stderr))
            if verbose:
                print(f, p.stdout.strip())
            seen.append((p.returncode, p.stdout))
        return seen[:2] == seen[2:]   # an outcome that varies by itself is no subject here


CHECKS = {"C38": Safety, "C46": Memory}
