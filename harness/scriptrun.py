"""Runs a script many times in one interpreter: scriptrun.py <script>, jobs as JSON on standard input.

A job is {"argv": [...], "files": {name: text}}. With a name "ROOT" among the
modules to replace, a recording stand-in for that library is offered."""
import io
import json
import os
import sys
import traceback
import types

CALLS = []


class Recorder:
    """Accepts every call and remembers those on objects made from classes."""

    def __init__(self, kind, args=()):
        self.__dict__["_kind"], self.__dict__["_args"] = kind, args

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def call(*a, **k):
            CALLS.append([self._kind, [x for x in self._args if isinstance(x, (str, int, float))], name, [x for x in a if isinstance(x, (str, int, float))]])
            return Recorder(self._kind + "." + name)
        return call


def root():
    m = types.ModuleType("ROOT")

    def attr(name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name.startswith("T"):
            return lambda *a: Recorder(name, a)
        if name.startswith("k"):
            return 1
        return Recorder(name)
    m.__getattr__ = attr
    return m


def main():
    script = sys.argv[1]
    code = compile(open(script).read(), script, "exec")
    sys.path.insert(0, os.path.dirname(script))
    sys.modules["ROOT"] = root()
    out = []
    for job in json.load(sys.stdin):
        for name, text in job.get("files", {}).items():
            with open(name, "w") as f:
                f.write(text)
        sys.argv = [script] + job["argv"]
        del CALLS[:]
        keep, sys.stdout, sys.stderr = sys.stdout, io.StringIO(), io.StringIO()
        error = ""
        try:
            exec(code, {"__name__": "__main__", "__file__": script})
        except SystemExit as e:
            error = "exit %s" % e.code if e.code else ""
        except Exception:
            error = traceback.format_exc().strip().splitlines()[-1]
        text = sys.stdout.getvalue()
        sys.stdout, sys.stderr = keep, sys.__stderr__
        out.append({"text": text, "error": error, "calls": [[json.loads(json.dumps(y)) for y in c] for c in CALLS]})
    json.dump(out, sys.stdout)


main()
