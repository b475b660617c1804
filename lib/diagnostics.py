"""Diagnostic classes: C23 hexadecimal text, C24 pools, C25 responses, C26 comparisons,
C27 differing bit, C28 timing, C31 truncated files, C32 function tables,
C35 damaged files, C39 screen output, C42 locales, C45 copies, C47 file heads."""
import glob
import os

from core import Check, CheckError, Result, JOBS, link


class Keyed(Check):
    """Explorers built on harness/diag.hpp: states named by keys, split over processes."""
    source = None
    bounds = ("", "")
    libs = ("-lpthread",)
    parts = JOBS

    def includes(self):
        return None

    def build(self):
        inc = self.includes()
        self.bin, self.bin2 = self.ctx.parallel([
            lambda: self.ctx.compile(self.source, [self.source + ".cpp"], ["-w"], libs=self.libs, inc=inc),
            lambda: self.ctx.compile(self.source + "2", [self.source + ".cpp"], ["-w"], cxx="clang++", base=["-O1", "-std=c++11"], libs=self.libs, inc=inc)])
        self.env = {"MC_SCRATCH": self.ctx.files()}

    def run(self):
        self.build()
        r = Result()
        for j in self.ctx.parallel([lambda p=p: self.ctx.harness([self.bin, "run", self.ctx.tier, str(p), str(self.parts)], env=self.env) for p in range(self.parts)]):
            r.add(j)
        for s in self.traces(r):
            if self.ctx.sh([self.bin2, "replay"] + s.split(), check=False, env=self.env).returncode == 0:
                r.validated += 1
            else:
                r.trace_mismatches.append(s)
        r.bounds = self.bounds[self.ctx.thorough]
        return r

    def traces(self, r):
        return r.samples

    def replay(self, key, verbose=False):
        return self.replay_with(self.bin, key, verbose, env=self.env)


class Hex(Keyed):
    source = "hexio"
    technique = "exhaustive enumeration of bit patterns and of all short sequences of writes and reads on one stream"
    note = "all 2^32 single precision patterns; double precision pattern lattice; all sequences of five (thorough six) out of thirteen tokens"
    bounds = ("2^32 single precision patterns; double precision patterns of up to three bits (every second leading bit), runs, all exponents, all 16 bit fields; sequences of length 5 over 13 tokens",
              "2^32 single precision patterns; double precision patterns of up to three bits, runs, all exponents, all 16 bit fields; sequences of length 6 over 13 tokens")


class Pools(Keyed):
    source = "pool"
    technique = "exhaustive enumeration of parameters and of all write and read histories on two files and three objects"
    note = "21 intervals (all pairs of them for two coordinates) x sizes x 8 seeds x both precisions; all histories of depth 5 (thorough 6)"
    bounds = ("21 intervals, 25 sizes, 8 seeds, both precisions; histories of depth 5", "the same with histories of depth 6")


class Responses(Keyed):
    source = "response"
    technique = "exhaustive enumeration of short input lists and of all write and read histories on two files and three objects"
    note = "lists up to length 4 over special values, all lengths up to 64 and around 2^8, 2^15, 2^16; histories of depth 5 (thorough 6)"
    bounds = ("lists of up to two of 16 values, three of nine, four of four; pairs of lists; lengths to 64 and selected to 131073; histories of depth 5 (array form 4)",
              "lists of up to three of 16 values, four of seven; pairs of lists to length 3; histories of depth 6")


class Comparisons(Keyed):
    source = "comparison"
    technique = "exhaustive enumeration of short result lists and of all write and read histories on two files and three objects"
    note = "all lists up to length 4 over ten pairs with known differences, longer families; histories of depth 4 (thorough 5)"
    bounds = ("lists to length 4 over ten pairs, length 5 over five; lengths to 40 and selected to 70000 in four families; histories of depth 4",
              "lists to length 5 over ten pairs, length 6 over six; lengths to 40 and selected to 70000; histories of depth 5")


class DiffBit(Keyed):
    source = "diffbit"
    technique = "exhaustive enumeration of all single precision values and of all pairs of a bit pattern lattice"
    note = "2^32 values against a partner at a power of two distance; all pairs of the lattice around every power of two"
    bounds = ("2^32 single precision values; all pairs of the lattices; bit strings of every 127th value", "2^32 single precision values with their bit strings; all pairs of larger lattices")

    def traces(self, r):
        return [s for s in r.samples if not s.startswith("values")]


class Timing(Keyed):
    source = "timing"
    technique = "exhaustive enumeration of clock readings and cost patterns executed on a virtual clock"
    note = "all pairs of a lattice of readings; every cost pattern over all passes for up to 4 inputs and 3 repetitions; more than 2^32 evaluations"
    bounds = ("about 1000 readings, all ordered pairs; inputs 1..4 x repetitions 1..3 with all patterns of 4 costs over twice the repetitions; larger ones with periodic patterns; 2^32 evaluations in all four forms",
              "a finer lattice; patterns of 5 costs; 2^32 evaluations in all four forms and both precisions")
    assumptions = ["the timer takes its readings from clock_gettime"]


class Cut(Keyed):
    source = "cut"
    technique = "exhaustive enumeration of crash points: every prefix length of every kind of file"
    note = "pool, response and comparison files of one and two inputs, both precisions, two sizes each"
    level = "fault_enumeration"
    bounds = ("every byte position of 24 files",) * 2

    def run(self):
        r = super().run()
        r.nontrivial = r.counts.pop("cut inside the records", 0)
        r.rule = "one case per kind of file, precision, data set and cut position, all distinct; non-trivial when the cut leaves at least one record but not the whole file"
        return r


class Damage(Keyed):
    source = "damage"
    technique = "exhaustive enumeration of single byte faults: every position of every kind of file, every replacement byte, removal, insertion"
    note = "the files of the truncation property; all 256 byte values in the records of the small files, four values elsewhere, removal and four insertions everywhere; thorough all values everywhere"
    level = "fault_enumeration"
    bounds = ("every byte position of 24 files: 256 (records of the small files) or 4 replacement bytes, 4 inserted bytes, removal",
              "every byte position of 24 files: 256 (records) or 9 (header) replacement bytes, 9 inserted bytes, removal")

    def run(self):
        r = super().run()
        r.nontrivial = r.counts.pop("records before the damage", 0)
        r.rule = "one case per kind of file, precision, data set, position and fault, all distinct; non-trivial when at least one record is complete before the damage"
        return r


class Tables(Keyed):
    source = "tuples"
    technique = "exhaustive enumeration of all entries of all tables, each executed on an argument lattice"
    note = "eight tables and the list of basic names; about 700 arguments per entry"
    bounds = ("all entries of eight tables, about 700 arguments each",) * 2
    parts = 4

    def includes(self):
        src, b = self.ctx.project("tables", ["-DDIAG=OFF"], ["vdt"])
        so = (glob.glob(src + "/**/libvdt.so", recursive=True) + glob.glob(src + "/**/libvdt.a", recursive=True))
        if not so:
            raise CheckError("no library built")
        self.libs = link(so[0])
        return [src + "/include", src + "/include/diagnostic"]


class Prints(Keyed):
    source = "prints"
    technique = "exhaustive enumeration of all sequences of printing operations and of all short argument lists"
    note = "20 kinds of output in both precisions with two data sets: all sequences of three (thorough, in part, four); lists to length 3 of special values; four instruction set options"
    bounds = ("all sequences of length 3 over 80 printing operations; lists up to length 3 over special values in eight forms; lists of 1..40 and selected longer lengths in ten forms; four compiler options",
              "sequences of length 4 with the precision and data of the last operation following from the others; larger alphabets")

    def build(self):
        super().build()
        can = open("/proc/cpuinfo").read()
        self.isa = {o: self.ctx.compile("prints" + o, [self.source + ".cpp"], [o, "-w"], base=["-O1", "-std=c++11"])
                    for o, flag in (("-msse2", "sse2"), ("-msse3", "pni"), ("-msse4.1", "sse4_1"), ("-mavx", " avx")) if flag in can}

    def run(self):
        r = super().run()
        for o, b in self.isa.items():
            r.states += 1
            r.transitions += 1
            p = self.ctx.sh([b, "replay", "seq", "76"], check=False, env=self.env)
            if p.returncode:
                r.violate("isa %s" % o, "compiled with %s: %s" % (o, p.stdout.strip()))
        return r

    def replay(self, key, verbose=False):
        if key.startswith("isa "):
            return self.replay_with(self.isa[key[4:]], "seq 76", verbose, env=self.env)
        return super().replay(key, verbose)


class Locales(Keyed):
    source = "locales"
    technique = "exhaustive enumeration of pairs of global locales for writing and reading, executed on the file classes"
    note = "76 locales (decimal points, separators, groupings), all ordered pairs x six kinds of file x two precisions x lists of 1, 4 and 16 records; 1100 records with equal or standard locales (thorough all pairs)"
    bounds = ("all ordered pairs of 76 locales x six kinds of file x two precisions x three list lengths; 1100 records for pairs with an equal or the standard locale",
              "1100 records for all pairs")


class Copies(Keyed):
    """The history explorers of three kinds of objects, with copies."""
    SOURCES = ("pool", "response", "comparison")
    technique = "exhaustive enumeration of all copy, move, write and read histories on two files and three objects"
    note = "one- and two-argument pools, responses and comparisons, both precisions; histories of depth 4 (thorough 5) with at least one copy or move"
    bounds = ("histories of depth 4 over 6 writes, 6 reads, 6 copies and 6 moves that contain a copy or move",
              "histories of depth 5 (array responses 4) over 6 writes, 6 reads, 6 copies and 6 moves that contain a copy or move")

    def build(self):
        jobs = [(s, c) for s in self.SOURCES for c in ("g++", "clang++")]
        done = self.ctx.parallel([lambda s=s, c=c: self.ctx.compile("copies-%s-%s" % (s, c), [s + ".cpp"], ["-w", "-DMC_COPIES"], cxx=c, base=["-O1", "-std=c++11"]) for s, c in jobs])
        self.bins = dict(zip(jobs, done))
        self.env = {"MC_SCRATCH": self.ctx.files()}

    def run(self):
        self.build()
        r = Result()
        jobs = [(s, p) for s in self.SOURCES for p in range(self.parts)]
        for (s, p), j in zip(jobs, self.ctx.parallel([lambda s=s, p=p: self.ctx.harness([self.bins[s, "g++"], "run", self.ctx.tier, str(p), str(self.parts)], env=self.env) for s, p in jobs])):
            for v in j["violations"]:
                v["key"] = s + " " + v["key"]
            j["samples"] = [s + " " + k for k in j["samples"]] if p == 0 else []
            j["counts"] = {s + "_histories": j["states"]}
            r.add(j)
        for k in r.samples:
            s, rest = k.split(None, 1)
            if self.replay_with(self.bins[s, "clang++"], rest, env=self.env):
                r.trace_mismatches.append(k)
            else:
                r.validated += 1
        r.bounds = self.bounds[self.ctx.thorough]
        return r

    def replay(self, key, verbose=False):
        s, rest = key.split(None, 1)
        return self.replay_with(self.bins[s, "g++"], rest, verbose, env=self.env)


class Heads(Keyed):
    source = "headers"
    technique = "exhaustive enumeration of parameters, list lengths and of all sequences of writing and copying on two files"
    note = "six kinds of file x two precisions; 16 intervals (all pairs of them for two coordinates), 9 names, lengths to 12 and selected to 1000001; all sequences of up to 5 (thorough 6) writes and copies"
    bounds = ("16 intervals or pairs of them, 9 names, lengths 1..12 and selected to 1000001; sequences of up to 5 out of eight operations on two files",
              "all selected lengths for all pairs of intervals; sequences of up to 6 out of eight operations")


CHECKS = {"C23": Hex, "C24": Pools, "C25": Responses, "C26": Comparisons, "C27": DiffBit, "C28": Timing, "C31": Cut, "C32": Tables, "C35": Damage, "C39": Prints, "C42": Locales, "C45": Copies, "C47": Heads}
