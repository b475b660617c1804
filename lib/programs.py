"""Benchmark programs: C29 command line, C30 files and tables."""
import collections
import itertools
import json
import math
import os
import re
import shutil
import struct
import subprocess

from core import Check, CheckError, Result, JOBS
from diagnostics import Keyed

PROGRAMS = ("vdtArithmBenchmark", "vdtArithmComparison", "vdtPerfBenchmark")


def build_programs(ctx, cxx="g++", name="progs"):
    """Builds the project with its programs; returns {name: path} and the include directories."""
    src, b = ctx.project(name, ["-DDIAG=ON"], ["all"], cxx)
    found = {}
    for d, _, files in os.walk(src):
        for f in files:
            p = os.path.join(d, f)
            if f in PROGRAMS and os.access(p, os.X_OK) and not os.path.islink(p):
                found[f] = p
    missing = [p for p in PROGRAMS if p not in found]
    if missing:
        raise CheckError("not built: " + " ".join(missing))
    return found, [src + "/include", src + "/include/diagnostic"]


class Programs:
    """Runs a program in a directory of its own."""

    def __init__(self, ctx, progs):
        self.ctx, self.progs, self.n = ctx, progs, itertools.count()

    def fresh(self, files=None):
        d = os.path.join(self.ctx.files(), "d%d" % next(self.n))
        os.makedirs(d)
        for f in files or ():
            os.symlink(f, os.path.join(d, os.path.basename(f)))
        return d

    def run(self, prog, args, cwd):
        p = subprocess.run([self.progs[prog]] + list(args), cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace", timeout=120)
        return p


class CommandLine(Keyed):
    technique = "exhaustive enumeration of all argument vectors up to a length against the definition, on the parser and through the programs"
    note = "five option sets, alphabets of about 40 arguments, up to three and four arguments (thorough four and five); all lists up to length 5 (thorough 7) over two names and the separator"
    source = "cmdline"
    bounds = ("argument vectors of up to 4 (two option sets) and 3 (three option sets) out of about 40 arguments; lists up to length 5 over a, b and the separator; program runs with up to 2 arguments; the help on every name after up to 2 arguments",
              "one more argument each; lists up to length 7")

    def build(self):
        super().build()
        progs, inc = build_programs(self.ctx)
        bench = self.ctx.compile("bench", ["bench.cpp"], ["-w"], inc=inc)
        self.data = self.ctx.path("data")
        os.makedirs(self.data)
        files = json.loads(self.ctx.sh([bench, "make", self.data]).stdout)["files"]
        # the same contents under the short names used in the lists
        by = {f["id"]: f for f in files}
        shutil.copy(os.path.join(self.data, by["0"]["ref"]), os.path.join(self.data, "a"))
        shutil.copy(os.path.join(self.data, by["6"]["ref"]), os.path.join(self.data, "b"))
        shutil.copy(os.path.join(self.data, by["0"]["test"]), os.path.join(self.data, "t"))
        shutil.copy(os.path.join(self.data, by["6"]["test"]), os.path.join(self.data, "u"))
        self.p = Programs(self.ctx, progs)

    # -- lists through the comparison program ---------------------------------------
    def list_state(self, word, delta):
        """-R=<word> with as many test files plus delta; rows must name the parts in order."""
        text = word.replace("c", ",")
        parts = text.split(",")
        tests = [{"a": "t", "b": "u"}.get(p, "t") for p in parts]
        tests = tests[:delta] if delta < 0 else tests + ["t"] * delta
        if not tests:
            return None
        d = self.p.fresh([os.path.join(self.data, x) for x in ("a", "b", "t", "u")])
        q = self.p.run("vdtArithmComparison", ["-n=k", "-R=" + text, "-T=" + ",".join(tests)], d)
        rows = re.findall(r"(\S+) VS (\S+)", q.stdout)
        made = sorted(f for f in os.listdir(d) if not os.path.islink(os.path.join(d, f)))
        shutil.rmtree(d)
        if delta:
            if q.returncode == 0 or made:
                return "list [%s] is taken for %d parts (exit %d)" % (text, len(tests), q.returncode)
            return None
        want = [(p, t) for p, t in zip(parts, tests) if p in ("a", "b")]
        if q.returncode != 0 or rows != want:
            return "list [%s] gives rows %s instead of %s (exit %d)" % (text, rows, want, q.returncode)
        return None

    # -- whole programs ------------------------------------------------------------------
    SMALL = {"vdtArithmBenchmark": ["-n=k", "--nick=k", "-s=1", "--size=1", "-h", "--help", "-x", "n=k", "-n", ""],
             "vdtPerfBenchmark": ["-n=k", "--nick=k", "-s=1", "-r=1", "-p=Exp", "--pattern=Exp", "-h", "-x", "-n", "-m=-1", "-M=1"],
             "vdtArithmComparison": ["-n=k", "--nick=k", "-R=a", "--reference=b", "-T=t", "--test=u", "-h", "-x", "-n", "-R", "-T="]}
    NEEDS = {"vdtArithmBenchmark": ["-n"], "vdtPerfBenchmark": ["-n"], "vdtArithmComparison": ["-n", "-R", "-T"]}
    LONG = {"--nick": "-n", "--size": "-s", "--help": "-h", "--repetitions": "-r", "--pool_max": "-M", "--pool_min": "-m", "--pattern": "-p", "--reference": "-R", "--test": "-T"}
    KNOWN = {"vdtArithmBenchmark": "-n -s -h".split(), "vdtPerfBenchmark": "-n -s -r -M -m -p -h".split(), "vdtArithmComparison": "-n -R -T -h".split()}

    def program_state(self, prog, args):
        """Output files appear exactly for an accepted command line with everything required."""
        got, ok = {}, True
        for a in args:
            name, _, val = a.partition("=") if not a.startswith("=") else (a, "", "")
            name = self.LONG.get(name, name)
            if name not in self.KNOWN[prog] or name in got:
                ok = False
                break
            got[name] = val
        work = ok and "-h" not in got and all(got.get(n) for n in self.NEEDS[prog])
        # keep the accepted runs small
        if work and prog != "vdtArithmComparison" and got.get("-s") != "1":
            return None
        if work and prog == "vdtPerfBenchmark" and (got.get("-r") != "1" or got.get("-p") != "Exp"):
            return None
        d = self.p.fresh([os.path.join(self.data, x) for x in ("a", "b", "t", "u")])
        q = self.p.run(prog, args, d)
        made = sorted(f for f in os.listdir(d) if not os.path.islink(os.path.join(d, f)))
        shutil.rmtree(d)
        if q.returncode < 0:
            return "%s %s: killed by signal %d" % (prog, args, -q.returncode)
        if bool(made) != bool(work):
            return "%s %s: %s" % (prog, args, "no output file" if work else "output files %s" % made[:3])
        if prog == "vdtArithmComparison" and (q.returncode == 0) != (work or (ok and "-h" in got)):
            return "%s %s: exit %d" % (prog, args, q.returncode)
        if not work and not q.stdout.strip():
            return "%s %s: says nothing" % (prog, args)
        if ok and "-h" in got and not all(k in q.stdout for k in self.KNOWN[prog]):
            return "%s %s: help is incomplete" % (prog, args)
        return None

    def states(self):
        n = 7 if self.ctx.thorough else 5
        for k in range(1, n + 1):
            for w in itertools.product("abc", repeat=k):
                w = "".join(w)
                if w.endswith("c"):
                    continue   # whether a trailing separator starts another part is left open
                for delta in (0, 1, -1):
                    yield "list %s %d" % (w, delta)
        for prog in PROGRAMS:
            s = self.SMALL[prog]
            for k in range(0, (4 if self.ctx.thorough else 3) + (prog == "vdtPerfBenchmark")):
                for c in itertools.product(range(len(s)), repeat=k):
                    if k == 4 and prog == "vdtPerfBenchmark" and not self.ctx.thorough and sorted(c) != [0, 2, 3, 4]:
                        continue
                    yield "program %s %s" % (prog, ",".join(map(str, c)) or "-")
            if prog == "vdtArithmComparison" and not self.ctx.thorough:
                for c in itertools.permutations((0, 2, 4)):
                    yield "program %s %s" % (prog, ",".join(map(str, c)))

    def judge(self, key):
        t = key.split()
        if t[0] == "list":
            return self.list_state(t[1], int(t[2]))
        args = [] if t[2] == "-" else [self.SMALL[t[1]][int(i)] for i in t[2].split(",")]
        return self.program_state(t[1], args)

    def run(self):
        r = super().run()
        keys = list(self.states())
        bad = self.ctx.parallel([lambda k=k: self.judge(k) for k in keys])
        r.states += len(keys)
        r.transitions += len(keys)
        r.counts["program runs"] = len(keys)
        for k, e in zip(keys, bad):
            if e:
                r.violate(k, e)
        r.samples = r.samples[:8] + keys[:: max(1, len(keys) // 4)]
        return r

    def replay(self, key, verbose=False):
        if key.split()[0] in ("arguments", "help"):
            return super().replay(key, verbose)
        e = self.judge(key)
        if verbose:
            print(key, e or "holds")
        return e is not None


def distance(a, b):
    return abs(a - b).bit_length()


def stats(pairs):
    d = [distance(a, b) for a, b in pairs]
    mean = sum(d) / len(d)
    rms = math.sqrt(sum((x - mean) ** 2 for x in d) / (len(d) - 1)) if len(d) > 1 else None
    return max(d), min(d), mean, rms


class Pipeline(Check):
    technique = "exhaustive enumeration of sizes, functions and all short lists of file pairs, executed through the programs"
    note = "all functions for 13 sizes (thorough 40); all lists of up to three (thorough four) of ten kinds of file pairs; every function name and 12 expressions as performance pattern"

    def build(self):
        progs, inc = build_programs(self.ctx)
        self.p = Programs(self.ctx, progs)
        self.bench = self.ctx.compile("bench", ["bench.cpp"], ["-w"], inc=inc)
        self.bench2 = self.ctx.compile("bench2", ["bench.cpp"], ["-w"], inc=inc, cxx="clang++", base=["-O1", "-std=c++11"])
        self.data = self.ctx.path("data")
        os.makedirs(self.data)
        self.files = {f["id"]: f for f in json.loads(self.ctx.sh([self.bench, "make", self.data]).stdout)["files"]}

    # -- benchmark -----------------------------------------------------------------------
    def sizes(self):
        if self.ctx.thorough:
            return list(range(1, 33)) + [63, 64, 65, 100, 255, 256, 257, 1000, 5000]
        return [1, 2, 3, 4, 7, 8, 9, 16, 17, 33, 64, 100, 1000]

    def response(self, size, nick="k", checker=None):
        d = self.p.fresh()
        q = self.p.run("vdtArithmBenchmark", ["-n=" + nick, "-s=%d" % size] if size % 2 else ["--size=%d" % size, "--nick=" + nick], d)
        if q.returncode < 0:
            j = {"states": 1, "failures": 1, "violations": [{"key": "response %d all" % size, "text": "benchmark killed by signal %d" % -q.returncode}]}
        else:
            j = json.loads(self.ctx.sh([checker or self.bench, "verify", d, nick, str(size)]).stdout)
        shutil.rmtree(d)
        return j

    # -- comparison ----------------------------------------------------------------------
    # kinds: 0..6 complete pairs, s: pair 0 with the roles exchanged, r: reference missing, m: test missing
    KINDS = "0123456srm"

    def pair(self, k):
        if k == "s":
            f = self.files["0"]
            return dict(f, ref=f["test"], test=f["ref"], fn=f["tfn"], a=f["b"], b=f["a"]), True
        if k == "r":
            f = self.files["3"]
            return dict(f, ref="none__" + f["fn"] + "__response.txt"), False
        if k == "m":
            f = self.files["1"]
            return dict(f, test="none__" + f["tfn"] + "__response.txt"), False
        return self.files[k], True

    def compare(self, word):
        entries = [self.pair(k) for k in word]
        d = self.p.fresh([os.path.join(self.data, f) for f in os.listdir(self.data)])
        q = self.p.run("vdtArithmComparison", ["-n=out", "-R=" + ",".join(e["ref"] for e, _ in entries), "-T=" + ",".join(e["test"] for e, _ in entries)], d)
        try:
            return self.judge_compare(entries, q, d)
        finally:
            shutil.rmtree(d)

    def judge_compare(self, entries, q, d):
        if q.returncode != 0:
            return "exit %d" % q.returncode
        rows = [l for l in q.stdout.splitlines() if " VS " in l]
        good = [e for e, there in entries if there]
        if len(rows) != len(good):
            return "%d table rows for %d pairs" % (len(rows), len(good))
        outputs = {}
        for e, row in zip(good, rows):
            name = e["fn"][e["fn"].find("_") + 1:]
            st = stats(list(zip(e["a"], e["b"])))
            t = row.split()
            if t[0] != name or t[1] != e["ref"].split("__")[0] or t[3] != e["test"].split("__")[0]:
                return "row [%s] for %s against %s" % (row, e["ref"], e["test"])
            if int(t[-4]) != st[0] or int(t[-3]) != st[1] or abs(float(t[-2]) - st[2]) > 0.0051 or (st[3] is not None and abs(float(t[-1]) - st[3]) > 0.0051):
                return "row [%s] instead of %s" % (row, st)
            outputs["comparison__out__%s.txt" % name] = (e, st)
        made = sorted(f for f in os.listdir(d) if not os.path.islink(os.path.join(d, f)))
        if made != sorted(outputs):
            return "output files %s instead of %s" % (made, sorted(outputs))
        for f, (e, st) in outputs.items():
            lines = open(os.path.join(d, f)).read().splitlines()
            n = len(e["a"])
            if len(lines) != 6 + n:
                return "%s has %d lines for %d entries" % (f, len(lines), n)
            if lines[1] != ("Double Precision" if e["bits"] == 64 else "Single Precision"):
                return "%s: %s" % (f, lines[1])
            t = lines[5].split()
            mean, rms = (struct.unpack("<d", struct.pack("<Q", int(x, 16)))[0] for x in t[2:])
            if int(t[0]) != st[0] or int(t[1]) != st[1] or abs(mean - st[2]) > 1e-9 or (st[3] is not None and abs(rms - st[3]) > 1e-9):
                return "%s: statistics %s instead of %s" % (f, t, st)
            for i in range(n):
                t = lines[6 + i].split()
                want = [e["x"][i]] + ([e["y"][i]] if e["two"] else []) + [e["a"][i], e["b"][i]]
                if [int(x, 16) for x in t[:len(want)]] != want or int(t[len(want)]) != distance(e["a"][i], e["b"][i]):
                    return "%s: entry %d is %s" % (f, i, lines[6 + i])
        return None

    # -- performance -----------------------------------------------------------------------
    @staticmethod
    def names():
        ref = "Identity Exp Log Sin Cos Tan Tanh Asin Acos Atan Isqrt Inverse".split()
        fast = "Exp Log Sin Cos Tan Tanh Asin Acos Atan Isqrt Inv Apr_Isqrt Apr_Inv".split()
        one = ref + ["Fast_" + f for f in fast]
        two = ["Identity2D", "Atan2", "Fast_Atan2"]
        return [n + s for n in one + two for s in ("", "v", "f", "fv")]

    PATTERNS = [".*", "Exp", "Fast_.*", ".*f", ".*v", "Nothing", "(Sin|Cos)f?v?", ".*Atan2.*", "[A-F].*", "xp", "Exp.", "^Tan$"]

    def performance(self, index):
        pats = self.PATTERNS + [n for n in self.names()]
        pat = pats[index]
        want = [n for n in self.names() if re.fullmatch(pat, n)]
        d = self.p.fresh()
        q = self.p.run("vdtPerfBenchmark", ["-n=k", "-s=3", "-r=2", "-p=" + pat], d)
        made = sorted(os.listdir(d))
        text = open(os.path.join(d, made[0])).read() if len(made) == 1 else ""
        shutil.rmtree(d)
        if q.returncode < 0 or len(made) != 1:
            return "pattern %s: exit %d, files %s" % (pat, q.returncode, made)
        # one line per function on screen, the same lines in the file
        screen = [l for l in q.stdout.splitlines() if l.startswith("Function ") and " : " in l]
        got = [l.split()[1] for l in screen]
        if collections.Counter(got) != collections.Counter(want):
            return "pattern %s: functions %s" % (pat, sorted((collections.Counter(got) - collections.Counter(want)) + (collections.Counter(want) - collections.Counter(got)))[:6])
        if text.splitlines() != screen:
            return "pattern %s: file and screen differ" % pat
        return None

    def states(self):
        for k in range(1, (4 if self.ctx.thorough else 3) + 1):
            for w in itertools.product(self.KINDS, repeat=k):
                yield "compare " + "".join(w)
        for i in range(len(self.PATTERNS) + len(self.names())):
            yield "performance %d" % i

    def judge(self, key):
        t = key.split()
        if t[0] == "compare":
            e = self.compare(t[1])
        elif t[0] == "performance":
            e = self.performance(int(t[1]))
        else:
            v = [x for x in self.response(int(t[1]))["violations"] if x["key"] == key]
            e = v[0]["text"] if v else None
        return e and key + ": " + e

    def run(self):
        self.build()
        r = Result()
        for j in self.ctx.parallel([lambda s=s: self.response(s) for s in self.sizes()]):
            r.add(j)
        for j in (self.response(17, "other__nick_1"),):
            r.add(j)
        keys = list(self.states())
        for k, e in zip(keys, self.ctx.parallel([lambda k=k: self.judge(k) for k in keys])):
            if e:
                r.violate(k, e)
            r.counts[k.split()[0]] = r.counts.get(k.split()[0], 0) + 1
        r.states += len(keys)
        r.transitions += len(keys)
        # the response files once more with a checker built by the other compiler
        j = self.response(17, checker=self.bench2)
        r.validated += j["states"] - j["failures"]
        r.samples = r.samples[:6] + keys[:: max(1, len(keys) // 6)]
        r.bounds = "104 functions for sizes %s; all lists of up to %d of 10 kinds of file pairs; %d performance patterns" % (self.sizes(), 4 if self.ctx.thorough else 3, len(self.PATTERNS) + len(self.names()))
        return r

    def replay(self, key, verbose=False):
        e = self.judge(key)
        if verbose:
            print(e or key + " holds")
        return bool(e)


CHECKS = {"C29": CommandLine, "C30": Pipeline}
