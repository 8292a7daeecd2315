"""Small examples with a known answer, analysed with the same machinery on
every run (a rule that matches nothing would pass for ever)."""
import os
import tempfile

from . import extract as X, facts
from .extract import Unanalysable

ROOT = os.path.join(X.VERIF, "selftest")


def program(name, extra=()):
    src = os.path.join(ROOT, "SeQuant", name + ".cpp")
    tool = X.build_tool()
    fd, out = tempfile.mkstemp(suffix=".jsonl")
    os.close(fd)
    try:
        res = X.sh(["clang++", "-print-resource-dir"]).stdout.strip()
        r = X.sh([tool, out, ROOT, "--", src, "-std=c++20", "-w",
                  "-resource-dir", res] + list(extra))
        if r.returncode or ": error:" in r.stdout:
            raise Unanalysable("self-test source does not parse: " + r.stdout[-800:])
        return facts.Program([out])
    finally:
        os.unlink(out)
