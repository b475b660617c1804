"""Shared parts of the checks: scratch space, building from /repo, running."""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import struct
import subprocess
import tempfile

REPO = os.environ.get("VDT_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(HERE, "harness")
JOBS = os.cpu_count() or 4
# what the project itself passes to the compiler for users of the headers
FLAGS = ["-O3", "-std=c++11", "-msse"]

SHM = "/dev/shm"


class CheckError(Exception):
    pass


class Result:
    """What one exploration covered and found."""

    def __init__(self):
        self.states = self.transitions = self.validated = 0
        self.violations = []
        self.samples = []
        self.counts = {}
        self.worst = {}
        self.bounds = ""
        self.exhaustive = True
        self.trace_mismatches = []
        self.extra = {}

    def add(self, j):
        """Merges the JSON printed by a harness."""
        self.states += j.get("states", 0)
        self.transitions += j.get("transitions", 0)
        self.violations += j.get("violations", [])
        self.samples += j.get("samples", [])
        for k, v in j.get("counts", {}).items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.counts["failing_states"] = self.counts.get("failing_states", 0) + j.get("failures", 0)
        self.worst.update(j.get("worst", {}))
        self.exhaustive = self.exhaustive and j.get("exhaustive", True)
        self.validated += j.get("validated", 0)

    def violate(self, key, text):
        self.violations.append({"key": key, "text": text})


class Check:
    """Base class. run() explores; replay(key) re-executes one violation in a
    fresh process and says whether it still happens."""
    level = "model_checking"
    assumptions = []

    def __init__(self, ctx):
        self.ctx = ctx

    def build(self):
        pass

    def prepare_replay(self):
        self.build()

    def run(self):
        raise NotImplementedError

    def replay(self, key, verbose=False):
        raise NotImplementedError

    def replay_with(self, binary, key, verbose=False, env=None):
        """Runs `binary replay <key>`: exit 1 means violated, 0 held."""
        p = self.ctx.sh([binary, "replay"] + key.split(), check=False, env=env)
        if verbose:
            print(p.stdout.strip())
        if p.returncode not in (0, 1):
            raise CheckError("replay failed (%d): %s" % (p.returncode, p.stderr))
        return p.returncode == 1


def link(so):
    """Linker arguments for a library built into the scratch directory."""
    if so.endswith(".a"):
        return (so, "-lpthread")
    d = os.path.dirname(so)
    return ("-L" + d, "-lvdt", "-Wl,-rpath," + d, "-lpthread")


class Context:
    def __init__(self, tier):
        self.tier = tier
        self.thorough = tier == "thorough"
        self.dir = None
        self._lit = None
        self._stage = None
        self._files = None

    def __enter__(self):
        if not os.path.isdir(os.path.join(REPO, "include")):
            raise CheckError("no /repo/include")
        self.dir = tempfile.mkdtemp(prefix="vdtmc-")
        self.files()
        return self

    def __exit__(self, *a):
        if self.dir and self.dir.startswith(tempfile.gettempdir() + "/vdtmc-"):
            shutil.rmtree(self.dir, ignore_errors=True)
        if self._files and self._files.startswith(SHM + "/vdtmc-"):
            shutil.rmtree(self._files, ignore_errors=True)

    def files(self):
        """Scratch directory for many small files: in memory if there is room."""
        if self._files is None:
            try:
                v = os.statvfs(SHM)
                if v.f_bavail * v.f_frsize < 2 << 30:
                    raise OSError
                self._files = tempfile.mkdtemp(prefix="vdtmc-", dir=SHM)
            except OSError:
                self._files = self.path("files")
                os.makedirs(self._files, exist_ok=True)
        return self._files

    def path(self, *p):
        return os.path.join(self.dir, *p)

    # -- building -------------------------------------------------------------
    def sh(self, cmd, cwd=None, env=None, timeout=800, check=True, **kw):
        e = dict(os.environ)
        if env:
            e.update(env)
        try:
            p = subprocess.run(cmd, cwd=cwd or self.dir, env=e, timeout=timeout, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)
        except subprocess.TimeoutExpired:
            raise CheckError("timeout: " + " ".join(map(str, cmd))[:300])
        if check and p.returncode != 0:
            raise CheckError("exit %d: %s\n%s\n%s" % (p.returncode, " ".join(map(str, cmd))[:400], p.stdout[-1500:], p.stderr[-3000:]))
        return p

    def parallel(self, jobs, workers=None):
        """jobs: list of callables; returns their results in order."""
        with concurrent.futures.ThreadPoolExecutor(workers or JOBS) as ex:
            fs = [ex.submit(j) for j in jobs]
            return [f.result() for f in fs]

    def compile(self, out, srcs, flags=(), cxx="g++", base=None, libs=("-lpthread",), inc=None):
        out = self.path(out)
        cmd = [cxx] + list(FLAGS if base is None else base) + list(flags)
        cmd += ["-I" + i for i in (inc if inc is not None else [REPO + "/include", REPO + "/include/diagnostic"])]
        cmd += ["-I" + HARNESS] + [s if os.path.isabs(s) else os.path.join(HARNESS, s) for s in srcs] + ["-o", out] + list(libs)
        self.sh(cmd, timeout=600)
        return out

    def stage(self):
        """A copy of the working tree (without build output) to build in."""
        if self._stage is None:
            dst = self.path("repo")
            skip = {os.path.join(REPO, x) for x in (".git", "_build", "bin", "src/vdtMath_signatures.cc")}

            def ignore(d, names):
                return [n for n in names if os.path.join(d, n) in skip or n == "__pycache__" or n.endswith((".o", ".so", ".a"))]
            shutil.copytree(REPO, dst, ignore=ignore, symlinks=True)
            self._stage = dst
        return self._stage

    def project(self, name, opts=(), targets=("all",), cxx="g++"):
        """Builds the project with its own build system; returns (source dir, build dir)."""
        src = self.path("proj-" + name)
        shutil.copytree(self.stage(), src, symlinks=True)
        b = os.path.join(src, "_build")
        env = {"CXX": cxx, "CC": "gcc" if cxx == "g++" else "clang"}
        self.sh(["cmake", "-S", src, "-B", b, "-G", "Ninja", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"] + list(opts), env=env)
        if not os.path.exists(os.path.join(src, "src", "vdtMath_signatures.cc")):
            raise CheckError("the signature generator produced nothing")
        self.sh(["ninja", "-C", b, "-j%d" % JOBS] + list(targets), env=env)
        return src, b

    def library(self, name="lib", opts=(), cxx="g++"):
        src, b = self.project(name, list(opts) + ["-DDIAG=OFF"], ["vdt"], cxx)
        for ext in ("so", "a"):
            p = glob.glob(b + "/**/libvdt." + ext, recursive=True) + glob.glob(src + "/**/libvdt." + ext, recursive=True)
            if p:
                return p[0]
        raise CheckError("no library built")

    def library_sources(self, name="libsrc"):
        """The translation units of the library, generated ones included."""
        src, b = self.project(name, ["-DDIAG=OFF"], ["vdt"])
        cc = json.load(open(os.path.join(b, "compile_commands.json")))
        files = [e["file"] for e in cc if "/vdt.dir/" in e.get("output", e["command"])]
        if not files:
            raise CheckError("no library sources found")
        return src, files

    # -- literals ---------------------------------------------------------------
    def literals(self):
        """Every numeric constant of the headers, as values and as bit patterns."""
        if self._lit:
            return self._lit
        vals, tails = set(), set()
        for p in sorted(glob.glob(REPO + "/include/*.h")):
            text = open(p, errors="replace").read()
            text = re.sub(r"//[^\n]*|/\*.*?\*/", " ", text, flags=re.S)
            for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+(?:\.[0-9a-fA-F]*)?(?:[pP][+-]?\d+)?|0[bB][01]+|\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)[a-zA-Z]*", text):
                t = m.group(1)
                try:
                    if t[:2].lower() == "0x" and ("." in t or "p" in t.lower()):
                        vals.add(float.fromhex(t))
                        continue
                    if t[:2].lower() in ("0x", "0b"):
                        n = int(t, 0)
                    elif re.fullmatch(r"\d+", t):
                        n = int(t)
                        vals.add(float(n))
                        if n < 2:
                            continue
                    else:
                        vals.add(float(t))
                        continue
                except (ValueError, OverflowError):
                    continue
                if n < 1 << 64:
                    tails.add(n & ((1 << 52) - 1))
                    cand = [float(n)]
                    if n < 1 << 32:
                        cand += list(struct.unpack("<f", struct.pack("<I", n)))
                        cand += list(struct.unpack("<d", struct.pack("<Q", n << 32)))
                    cand += list(struct.unpack("<d", struct.pack("<Q", n)))
                    vals.update(c for c in cand if c == c and abs(c) != float("inf"))
        p = self.path("literals.txt")
        with open(p, "w") as f:
            for v in sorted(vals):
                f.write("%r\n" % v)
            for t in sorted(tails - {0, (1 << 52) - 1})[:400]:
                f.write("t%x\n" % t)
        self._lit = p
        return p

    # -- running ------------------------------------------------------------------
    def harness(self, cmd, timeout=860, env=None):
        """Runs an explorer that prints one JSON object."""
        e = {"MC_LITERALS": self.literals()}
        e.update(env or {})
        p = self.sh(cmd, timeout=timeout if not self.thorough else 11000, env=e)
        try:
            return json.loads(p.stdout[p.stdout.index("{"):])
        except ValueError:
            raise CheckError("bad output of %s: %s" % (cmd[0], p.stdout[:500]))
