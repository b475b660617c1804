"""Histories and interleavings (C16, C17, C40)."""
from core import Check, Result, link, REPO, HARNESS


def unoptimised(j):
    """Marks the report of a program compiled without optimisation."""
    for v in j["violations"]:
        v["key"] = "O0 " + v["key"]
    j["samples"] = []
    j["counts"] = {"unoptimised_" + k: n for k, n in j["counts"].items()}
    return j


def replay_either(check, key, verbose):
    if key.startswith("O0 "):
        return check.replay_with(check.bin0, key[3:], verbose)
    return check.replay_with(check.bin, key, verbose)


class History(Check):
    technique = "exhaustive enumeration of call sequences on the real functions, baseline from fresh processes"
    note = "all sequences of length 2 from a fresh process, all length 3 windows in long histories, over a stated alphabet; all ordered pairs of 1600 arguments of each function"

    def build(self):
        so = self.ctx.library()
        self.bin, self.bin0, self.bin2 = self.ctx.parallel([
            lambda: self.ctx.compile("his", ["history.cpp"], libs=link(so)),
            lambda: self.ctx.compile("his0", ["history.cpp"], base=["-O0", "-std=c++11"], libs=link(so)),
            lambda: self.ctx.compile("his2", ["history.cpp"], cxx="clang++", base=["-O1", "-std=c++11"], libs=link(so))])

    def run(self):
        self.build()
        r = Result()
        r.bounds = ("alphabet: every scalar and array function x arguments (neighbours, sign changes, other branches, NaN); all pairs in fresh "
                    "processes, all triples as windows; floating point control state after every call; "
                    "per scalar function 1600 arguments: all ordered pairs within a function, a seventh x a 67th (thorough a third x a 19th) for all ordered pairs of functions; "
                    "all of it again with the header functions compiled without optimisation, where locals live on the stack")
        r.add(self.ctx.harness([self.bin, "run", self.ctx.tier]))
        r.add(unoptimised(self.ctx.harness([self.bin0, "run", self.ctx.tier])))
        for s in r.samples:
            if self.ctx.sh([self.bin2, "replay"] + s.split(), check=False).returncode == 0:
                r.validated += 1
            else:
                r.trace_mismatches.append(s)
        return r

    def replay(self, key, verbose=False):
        return replay_either(self, key, verbose)


class Interleavings(Check):
    technique = "stateless model checking: all thread schedules up to a preemption bound, executed on the instrumented real code"
    note = "2 and 3 threads, every memory access a scheduling point, up to 2 (thorough 3) preemptions for conflicting calls"
    assumptions = ["sequentially consistent interleaving of the compiled memory accesses",
                   "calls without conflicting accesses have equivalent interleavings (each single preemption is executed nevertheless)"]

    def build(self):
        src, files = self.ctx.library_sources()
        inc = ["-I" + REPO + "/include", "-I" + HARNESS, "-I" + src + "/include", "-I" + src + "/src"]

        def variant(name, cxx, opt="-O1"):
            objs, jobs = [], []
            for i, f in enumerate([HARNESS + "/sched_victim.cpp"] + files):
                o = self.ctx.path("%s-%d.o" % (name, i))
                objs.append(o)
                jobs.append([cxx, opt, "-std=c++11", "-msse", "-fsanitize=thread", "-w"] + inc + ["-c", f, "-o", o])
            o = self.ctx.path("%s-sched.o" % name)
            jobs.append(["g++", "-O2", "-std=c++11", "-I" + HARNESS, "-c", HARNESS + "/sched.cpp", "-o", o])
            self.ctx.parallel([lambda j=j: self.ctx.sh(j) for j in jobs])
            out = self.ctx.path(name)
            self.ctx.sh(["g++"] + objs + [o, "-Wl,--wrap=pthread_mutex_lock", "-o", out, "-lpthread", "-lm"])
            return out
        self.bin = variant("sched-gcc", "g++")
        self.bin2 = variant("sched-clang", "clang++")
        self.bin0 = variant("sched-O0", "g++", "-O0")   # no value of a variable is kept in a register

    def run(self):
        self.build()
        r = Result()
        r.bounds = ("every scalar and array function, all ordered pairs and all same-function triples x 5 argument sets; every instrumented "
                    "memory access and call is a scheduling point; again for code compiled without optimisation (same function or scalar functions); state = executed schedule, transition = scheduling point passed")
        r.add(self.ctx.harness([self.bin, "run", self.ctx.tier]))
        r.add(unoptimised(self.ctx.harness([self.bin0, "run", self.ctx.tier, "same"])))
        if self.ctx.thorough:
            r.add(self.ctx.harness([self.bin2, "run", self.ctx.tier]))
        for s in r.samples[:3]:
            if self.ctx.sh([self.bin2, "replay"] + s.split(), check=False).returncode == 0:
                r.validated += 1
            else:
                r.trace_mismatches.append(s)
        return r

    def replay(self, key, verbose=False):
        return replay_either(self, key, verbose)


class Objects(Check):
    technique = "stateless model checking: all thread schedules up to a preemption bound, executed on the instrumented diagnostic classes"
    note = "2 and 3 threads with objects and files of their own, every memory access a scheduling point"
    assumptions = ["sequentially consistent interleaving of the compiled memory accesses",
                   "code inside the C and C++ run time libraries is not preempted"]

    def build(self):
        src, _ = self.ctx.library_sources()
        inc = ["-I" + HARNESS, "-I" + REPO + "/include/diagnostic", "-I" + src + "/include", "-I" + REPO + "/include"]
        o = self.ctx.path("objects-sched.o")
        obj = {c: self.ctx.path("objects-%s.o" % c) for c in ("g++", "clang++")}
        jobs = [["g++", "-O2", "-std=c++11", "-w", "-DMC_OBJECTS", "-I" + HARNESS, "-c", HARNESS + "/sched.cpp", "-o", o]]
        jobs += [[c, "-O1", "-std=c++11", "-msse", "-fsanitize=thread", "-w"] + inc + ["-c", HARNESS + "/sched_diag.cpp", "-o", obj[c]] for c in obj]
        self.ctx.parallel([lambda j=j: self.ctx.sh(j) for j in jobs])
        for c in obj:
            self.ctx.sh(["g++", obj[c], o, "-Wl,--wrap=pthread_mutex_lock", "-o", self.ctx.path("objects-" + c), "-lpthread", "-lm"])
        self.bin, self.bin2 = self.ctx.path("objects-g++"), self.ctx.path("objects-clang++")

    def run(self):
        self.build()
        r = Result()
        r.bounds = ("9 kinds of use of the diagnostic classes (hexadecimal text, bit text, pools, responses, comparisons, their files, options) x 2 "
                    "precisions, all pairs in double precision, each use with itself in both, same-use triples of the uses without files (thorough: all pairs and triples), "
                    "two calls per thread; every instrumented memory access and call is a scheduling "
                    "point; state = executed schedule, transition = scheduling point passed")
        r.add(self.ctx.harness([self.bin, "run", self.ctx.tier]))
        for s in r.samples[:3]:
            if self.ctx.sh([self.bin2, "replay"] + s.split(), check=False).returncode == 0:
                r.validated += 1
            else:
                r.trace_mismatches.append(s)
        return r

    def replay(self, key, verbose=False):
        return replay_either(self, key, verbose)


CHECKS = {"C16": History, "C17": Interleavings, "C40": Objects}
