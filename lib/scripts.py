"""Result scripts: C41 tables, histograms and comparison commands."""
import itertools
import json
import math
import os
import re
import shlex
import shutil
import subprocess
import sys

from core import Check, CheckError, Result, HARNESS, JOBS, REPO
from programs import Programs, build_programs

TIMES = ((0.0, 0.0), (0.5, 0.25), (12.34, 3.0))
NUMBER = re.compile(r"-?\d+\.\d+|inf|nan")
# lists of names as the benchmark writes them: normalisation blocks with libm, vdt and array functions
SHAPES = {"one": ["Identity", "Exp", "Fast_Exp", "Identityv", "Expv", "Fast_Expv"],
          "inverse": ["Identity", "Inverse", "Fast_Inv", "Identityv", "Inversev", "Fast_Invv"],
          "blocks": ["Identity", "Log", "Fast_Log", "Identityv", "Logv", "Fast_Logv", "Identityf", "Sinf", "Fast_Sinf", "Identityfv", "Sinfv", "Fast_Sinfv",
                     "Identity2D", "Atan2", "Fast_Atan2", "Identity2Dv", "Atan2v", "Fast_Atan2v"]}
TABLES = ("-s", "-v", "-l")
FUNCTIONS = ("Acos", "Asin", "Atan", "Atan2", "Cos", "Exp", "Isqrt", "Log", "Sin", "Tan", "Tanh")
NICKS = ("n", "a_b", "x.1", "AVX2", "3")
NICKS_HISTO = ("n", "nn", "a_b")


def performance(shape, times):
    return "".join("Function %-15s : %.2f +- %.2f ns\n" % (n, t, e) for n, (t, e) in zip(SHAPES[shape], times))


def expected(table, files, normalise):
    """Rows (name, [(number, digits)...]) of the table, one list per file and table for -l."""
    data = []
    for records in files:
        out, base = [], (0.0, 0.0)
        for n, (t, e) in records:
            if normalise:
                if "Identity" in n:
                    base = (t, e)
                    continue
                out.append((n, t - base[0], math.sqrt(e * e + base[1] * base[1])))
            else:
                out.append((n, t, e))
        data.append(out)
    rows = []
    over = lambda a, b: (a / (b if b else 1.0), 1)
    if table == "-s":
        for i, (n, t0, _) in enumerate(data[0]):
            w = []
            for k, d in enumerate(data):
                w += [(d[i][1], 2), (d[i][2], 2)] + ([over(t0, d[i][1])] if k else [])
            rows.append((n, w))
    elif table == "-v":
        for n, t0, e0 in data[0]:
            if n.endswith("v"):
                continue
            w = [(t0, 2), (e0, 2)]
            for d in data:
                t, e = next((t, e) for m, t, e in d if m == n + "v")
                w += [(t, 2), (e, 2), over(t0, t)]
            rows.append((n, w))
    else:
        for d in data:
            by = {n: (t, e) for n, t, e in d}
            for n, t, e in d:
                if n.startswith("Fast_") or n.endswith("v") or "Identity" in n:
                    continue
                ft, fe = by["Fast_" + n.replace("Inverse", "Inv")]
                rows.append((n, [(t, 2), (e, 2), (ft, 2), (fe, 2), over(t, ft)]))
    return rows


def judge_table(text, rows):
    names = {n for n, _ in rows}
    got = [l for l in text.splitlines() if l.split() and (l.split()[0] in names or re.match(r"(Fast_|Identity)", l.split()[0]))]
    if len(got) != len(rows):
        return "%d rows instead of %d" % (len(got), len(rows))
    for line, (n, want) in zip(got, rows):
        if line.split()[0] != n:
            return "row of %s where %s belongs" % (line.split()[0], n)
        have = [float(x) for x in NUMBER.findall(line.split(None, 1)[1])]
        if len(have) != len(want):
            return "%d numbers instead of %d in \"%s\"" % (len(have), len(want), line.strip())
        for h, (w, digits) in zip(have, want):
            if abs(h - w) > 0.51 * 10 ** -digits:
                return "%g instead of %g in \"%s\"" % (h, w, line.strip())
    return None


class Scripts(Check):
    technique = "exhaustive enumeration of bounded result files and options, executed on the scripts and compared with the definition"
    note = "all performance files over three times for six functions, all pairs of lists over three, all comparison files up to three (thorough four) records over six kinds; the plotting library is a recording stand-in"
    assumptions = ["plotting library replaced by a stand-in that records what is filled"]

    def build(self):
        c = self.ctx
        self.dir = {s: os.path.join(REPO, "scripts", s + ".py") for s in ("tabulateVDTResults", "diffhisto", "checkAccuracy")}
        self.make = {}
        (progs, _), self.make["g++"], self.make["clang++"] = c.parallel([
            lambda: build_programs(c),
            lambda: c.compile("cmpfiles", ["cmpfiles.cpp"], ["-w"]),
            lambda: c.compile("cmpfiles2", ["cmpfiles.cpp"], ["-w"], cxx="clang++", base=["-O1", "-std=c++11"])])
        self.progs = Programs(c, progs)

    # -- running scripts -------------------------------------------------------------
    def many(self, script, jobs, cwd):
        p = subprocess.run([sys.executable, "-B", HARNESS + "/scriptrun.py", self.dir[script]], cwd=cwd, input=json.dumps(jobs), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=800)
        if p.returncode:
            return [{"text": "", "error": "the interpreter ended with %d: %s" % (p.returncode, p.stderr.strip()[-200:]), "calls": []} for _ in jobs]
        return json.loads(p.stdout)

    # -- tables --------------------------------------------------------------------
    def tables(self):
        """Keys: table, normalisation, shape, one time index per record and file."""
        six = list(itertools.product("012", repeat=6))
        for t in TABLES:
            for norm in (True, False):
                for w in six:
                    yield "table %s %d one %s" % (t, norm, "".join(w))
                    if self.ctx.thorough or w[0] == w[3]:
                        yield "table %s %d inverse %s" % (t, norm, "".join(w))
                for a in itertools.product("012", repeat=3):
                    for b in itertools.product("012", repeat=3):
                        # the array functions of one file are timed as the scalar ones of the other
                        yield "table %s %d one %s %s" % (t, norm, "".join(a + b), "".join(b + a[::-1]))
                        yield "table %s %d blocks %s %s" % (t, norm, "".join(a + b) * 3, "".join(b + a) * 2 + "".join(a[::-1] + b))
                    yield "table %s %d blocks %s %s %s" % (t, norm, "".join(a) * 6, "".join(a[::-1]) * 6, "012" * 6)

    def table_job(self, key):
        k = key.split()
        files = [[(n, TIMES[int(c)]) for n, c in zip(SHAPES[k[3]], w)] for w in k[4:]]
        names = ["m%d__performance_benchmark.txt" % i for i in range(len(files))]
        job = {"argv": [k[1]] + ([] if k[2] == "1" else ["--no-normalise"]) + names,
               "files": {n: performance(k[3], [x for _, x in f]) for n, f in zip(names, files)}}
        return job, expected(k[1], files, k[2] == "1"), ["m%d" % i for i in range(len(files))]

    def judge_job(self, key, result):
        job, rows, titles = self.table_job(key)
        if result["error"]:
            return result["error"]
        for t in titles:
            if t not in result["text"]:
                return "no column of %s" % t
        return judge_table(result["text"], rows)

    def alone(self, key):
        """The same table from the script started as a program."""
        job = self.table_job(key)[0]
        d = self.progs.fresh()
        for n, t in job["files"].items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        p = subprocess.run([sys.executable, "-B", self.dir["tabulateVDTResults"]] + job["argv"], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        shutil.rmtree(d)
        e = "" if p.returncode == 0 else (p.stderr.strip().splitlines() or ["exit %d" % p.returncode])[-1]
        return self.judge_job(key, {"error": e, "text": p.stdout, "calls": []})

    # -- histograms ------------------------------------------------------------------
    def histograms(self, cxx, n):
        """All files of lists up to n records; yields (key, complaint)."""
        d = self.progs.fresh()
        sub = os.path.join(d, "sub")
        os.makedirs(sub)
        want = {}
        for nick in NICKS_HISTO:
            for place in (d, sub):
                want[nick, place] = json.loads(self.ctx.sh([self.make[cxx], place, nick, str(n if nick == "n" and place == d else 2), "01"[place == sub]]).stdout)
        # the intervals of the functions, under names no other nick matches
        want["dom", d] = json.loads(self.ctx.sh([self.make[cxx], d, "dom", "domains"]).stdout)
        want["dom", sub] = json.loads(self.ctx.sh([self.make[cxx], sub, "dom", "domains"]).stdout)
        jobs, keys = [], []
        for (nick, place) in want:
            for argv in (["-n", nick], ["-n", nick, "-d", "sub"], ["-n", nick, "-d", place], ["--nick", nick, "--dir", os.path.relpath(place, d) + "/"]):
                at = d if len(argv) == 2 else os.path.normpath(os.path.join(d, argv[3]))
                key = "histogram %s %d %s" % (nick, at == sub, "here" if len(argv) == 2 else "absolute" if argv[3][0] == "/" else "relative")
                if key not in keys:
                    keys.append(key)
                    jobs.append((argv, want[nick, at]))
        res = self.many("diffhisto", [{"argv": a} for a, _ in jobs], d)
        shutil.rmtree(d)
        for key, (_, files), r in zip(keys, jobs, res):
            yield key, len(files), sum(len(f["records"]) for f in files), self.judge_histograms(files, r)

    def judge_histograms(self, files, r):
        if r["error"]:
            return r["error"]
        filled, done = {}, {}
        for kind, args, name, a in r["calls"]:
            if name in ("Draw", "Write") and kind[:3] in ("TH1", "TH2") and args:
                done.setdefault((kind[:3], args[0]), []).append(name)
            if kind[:3] in ("TH1", "TH2") and name == "Fill" and args:
                filled.setdefault((kind[:3], args[0]), (args, []))[1].append(a)
        seen = set()
        images = {a[0] for kind, _, name, a in r["calls"] if kind.startswith("TCanvas") and name in ("Print", "SaveAs") and a}
        if len(images) != 2 * len(files):
            return "%d images for %d files" % (len(images), len(files))
        names = {f["name"] for f in files}
        owner = {}   # histograms end in the longest matching name
        for k in filled:
            t = k[1].split("_")
            owner.setdefault(next((n for n in ("_".join(t[i:]) for i in range(1, len(t))) if n in names), None), []).append(k)
        for f in files:
            one = [k for k in owner.get(f["name"], []) if k[0] == "TH1"]
            two = [k for k in owner.get(f["name"], []) if k[0] == "TH2"]
            if len(one) != 1 or len(two) != 1:
                return "%s: %d and %d histograms filled" % (f["name"], len(one), len(two))
            seen |= {one[0], two[0]}
            for k in one + two:
                for what in ("Draw", "Write"):
                    if what not in done.get(k, []):
                        return "%s is not %s" % (k[1], {"Draw": "drawn", "Write": "saved"}[what])
            args, got = filled[one[0]]
            if [x[0] for x in got] != [x[1] for x in f["records"]]:
                return "%s: differing bits %s instead of %s" % (f["name"], got, [x[1] for x in f["records"]])
            lim = [x for x in args if isinstance(x, (int, float))]
            if len(lim) == 3 and not (lim[1] < 0 and lim[2] > f["bits"]):
                return "%s: histogram from %g to %g" % (f["name"], lim[1], lim[2])
            lim = [x for x in filled[two[0]][0] if isinstance(x, (int, float))]
            if len(lim) == 6 and not (lim[4] < 0 and lim[5] > f["bits"]):
                return "%s: differing bits from %g to %g" % (f["name"], lim[4], lim[5])
            if len(lim) == 6 and "domain" in f:
                lo, hi = f["domain"]
                if not (lim[1] <= lo and lim[2] >= hi and lim[2] - lim[1] <= 4 * (hi - lo)):
                    return "%s: arguments from %g to %g for the interval from %g to %g" % (f["name"], lim[1], lim[2], lo, hi)
            got = filled[two[0]][1]
            if len(got) != len(f["records"]):
                return "%s: %d entries instead of %d" % (f["name"], len(got), len(f["records"]))
            for (x, b), (wx, wb) in zip(got, f["records"]):
                w = float(wx)
                if b != wb or not (x == w or (x != x and w != w) or abs(x - w) <= 1e-5 * abs(w) + 1e-5):
                    return "%s: entry (%g, %g) instead of (%g, %d)" % (f["name"], x, b, w, wb)
        extra = set(filled) - seen
        return "histogram %s without a file" % sorted(extra)[0][1] if extra else None

    # -- accuracy command --------------------------------------------------------------
    def accuracy(self, nick):
        d = self.progs.fresh()
        try:
            self.progs.run("vdtArithmBenchmark", ["-n=" + nick, "-s=3"], d)
            p = subprocess.run([sys.executable, "-B", self.dir["checkAccuracy"], nick], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
            if p.returncode:
                return (p.stderr.strip().splitlines() or ["exit %d" % p.returncode])[-1]
            cmd = shlex.split(p.stdout)
            if not cmd or os.path.basename(cmd[0]) != "vdtArithmComparison":
                return "prints \"%s\"" % p.stdout.strip()[:100]
            lists = {a[:2]: a[3:].split(",") for a in cmd[1:] if a[:3] in ("-T=", "-R=")}
            if set(lists) != {"-T", "-R"}:
                return "lists %s" % sorted(lists)
            for f in lists["-T"] + lists["-R"]:
                if not os.path.exists(os.path.join(d, f)):
                    return "%s is not made by the benchmark" % f
            pairs = list(zip(lists["-R"], lists["-T"]))
            want = {("%s__%s%s__response.txt" % (nick, n, x), "%s__Fast_%s%s__response.txt" % (nick, n, x)) for n in FUNCTIONS for x in ("", "v", "f", "fv")}
            if len(lists["-R"]) != len(lists["-T"]) or not want <= set(pairs):
                return "missing %s" % sorted(want - set(pairs))[:1]
            p = self.progs.run("vdtArithmComparison", cmd[1:], d)
            made = [f for f in os.listdir(d) if f.startswith("comparison__" + nick + "__")]
            if p.returncode or len(made) != len(pairs):
                return "the command ends with %d and %d comparisons of %d" % (p.returncode, len(made), len(pairs))
            return None
        finally:
            shutil.rmtree(d)

    # -- all of it -----------------------------------------------------------------
    def run(self):
        self.build()
        c = self.ctx
        r = Result()
        r.bounds = ("tables: three kinds x normalised or not x all assignments of three times to six functions in one file, all pairs of three-letter assignments for two files, "
                    "lists of three blocks in two and three files; histograms: all comparison files of up to %d records over six kinds, one and two arguments, both precisions, three nicks, two directories named in four ways, 88 files over the intervals of the functions; "
                    "accuracy command for five nicks" % (4 if c.thorough else 3))
        keys = list(self.tables())
        parts = [keys[i::JOBS] for i in range(JOBS)]
        dirs = [self.progs.fresh() for _ in parts]
        out = c.parallel([lambda p=p, d=d: self.many("tabulateVDTResults", [self.table_job(k)[0] for k in p], d) for p, d in zip(parts, dirs)])
        res = {k: x for p, o in zip(parts, out) for k, x in zip(p, o)}
        for k in keys:
            r.states += 1
            r.transitions += 1
            e = self.judge_job(k, res[k])
            if e:
                r.violate(k, e)
        r.counts["tables"] = len(keys)
        for key, files, records, e in self.histograms("g++", 4 if c.thorough else 3):
            r.states += files
            r.transitions += 1
            r.counts["histogrammed_records"] = r.counts.get("histogrammed_records", 0) + records
            if e:
                r.violate(key, e)
        for n in NICKS:
            r.states += 1
            r.transitions += 1
            e = self.accuracy(n)
            if e:
                r.violate("accuracy " + n, e)
        # second executions: scripts as programs of their own, files of the other compiler
        for k in keys[::len(keys) // 12]:
            if self.alone(k):
                r.trace_mismatches.append(k)
            else:
                r.validated += 1
        for key, _, _, e in self.histograms("clang++", 1):
            if e:
                r.trace_mismatches.append(key)
            else:
                r.validated += 1
        r.samples = keys[:2] + ["accuracy n"]
        r.exhaustive = True
        return r

    def replay(self, key, verbose=False):
        k = key.split()
        if k[0] == "table":
            e = self.alone(key)
        elif k[0] == "accuracy":
            e = self.accuracy(k[1])
        else:
            e = next((e for x, _, _, e in self.histograms("g++", 3) if x == key), None)
        if verbose:
            print(e or "as defined")
        return bool(e)


CHECKS = {"C41": Scripts}
