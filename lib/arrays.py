"""Array functions of the built library (C14, C15)."""
from core import Check, Result, link


class Arrays(Check):
    mode = "same"
    technique = "exhaustive enumeration of array configurations on the library as the project builds it"

    def build(self):
        so = self.ctx.library()
        self.bin, self.bin2 = self.ctx.parallel([
            lambda: self.ctx.compile("arr", ["arrays.cpp"], libs=link(so)),
            lambda: self.ctx.compile("arr2", ["arrays.cpp"], cxx="clang++", base=["-O1", "-std=c++11"], libs=link(so))])

    def run(self):
        self.build()
        r = Result()
        r.bounds = self.bounds
        r.add(self.ctx.harness([self.bin, self.mode, self.ctx.tier]))
        # sample configurations again, with the scalar side compiled differently
        for s in sorted(set(r.samples)):
            p = self.ctx.sh([self.bin2, "replay"] + s.split(), check=False)
            if p.returncode == 0:
                r.validated += 1
            else:
                r.trace_mismatches.append(s)
        return r

    def replay(self, key, verbose=False):
        return self.replay_with(self.bin, key, verbose)


class Same(Arrays):
    bounds = ("every array function; special value at every position of every length up to 70 (thorough 130) at 4 alignments; mixed "
              "contents for every length up to 400 (1100) at 16x16 alignments; bit pattern lattices at sizes around powers of two up to "
              "2^20 (2^22); thorough: every single precision value through every fast array function")


class Memory(Arrays):
    mode = "mem"
    bounds = ("every array function; every length up to 160 (thorough 400) x alignments, before and after inaccessible pages, inputs "
              "read-only, outputs surrounded by canaries; sizes around 2^9..2^17; sizes up to 2^32-1 started on partly backed arrays; "
              "2^31+3 elements run to completion for selected functions (thorough: all, and 2^32-1)")


CHECKS = {"C14": Same, "C15": Memory}
