"""Runs the clang-based extractor over /repo's current sources.

The library's translation units are parsed in a handful of unity groups (the
headers dominate the parse time).  A group that does not parse as a unity (e.g.
two files that both define the same file-local helper) is parsed file by file.
The result is cached by the content of every input, so that a second check on
an unchanged tree re-uses it; a changed tree is always re-analysed.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tarfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SQ_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
TOOLSRC = os.path.join(VERIF, "tool", "sqfacts.cpp")
TOOL = os.path.join(VERIF, ".cache", "sqfacts")

# not part of the library as it is built here (need packages that are absent)
NOT_BUILT = (
    "SeQuant/core/eval/backends/",
    "SeQuant/domain/mbpt/biorthogonalization.cpp",
    "SeQuant/core/utility/string.cpp",
    "SeQuant/version.cpp",
    "SeQuant/external/",
)


class Unanalysable(Exception):
    """the check can give no answer (exit code 2)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def build_tool():
    os.makedirs(CACHE, exist_ok=True)
    src = open(TOOLSRC, "rb").read()
    stamp = TOOL + "." + hashlib.sha256(src).hexdigest()[:16]
    if os.path.exists(stamp) and os.path.exists(TOOL):
        return TOOL
    with open(os.path.join(CACHE, "build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(stamp) and os.path.exists(TOOL):
            return TOOL
        lib = None
        for c in ("/usr/lib/llvm-18/lib/libclang-cpp.so.18.1",
                  "/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1"):
            if os.path.exists(c):
                lib = c
                break
        if lib is None:
            raise Unanalysable("libclang-cpp.so.18.1 not found")
        tmp = TOOL + ".tmp"
        r = sh(["clang++", "-O2", "-std=c++17", "-fno-rtti", "-w",
                "-I/usr/lib/llvm-18/include", TOOLSRC, "-o", tmp, lib,
                "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        if r.returncode:
            raise Unanalysable("cannot build the extractor:\n" + r.stdout[-3000:])
        os.replace(tmp, TOOL)
        open(stamp, "w").close()
    return TOOL


def repo_files(exts=(".cpp", ".hpp", ".h", ".hh", ".ipp", ".cc", ".in")):
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "SeQuant")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                out.append(os.path.relpath(os.path.join(root, f), REPO))
    return out


def tu_files():
    return [f for f in repo_files((".cpp",))
            if not f.startswith(NOT_BUILT)]


def boost_include():
    """the boost headers the build uses (unpacked by the build, else by us)"""
    b = os.path.join(REPO, "_build")
    if os.path.isdir(os.path.join(b, "SeQuant/external/boost")):
        return [b]
    dst = os.path.join(CACHE, "inc")
    mark = os.path.join(dst, "done")
    if not os.path.exists(mark):
        os.makedirs(os.path.join(dst, "SeQuant/external"), exist_ok=True)
        tgz = os.path.join(REPO, "SeQuant/external/boost.tar.gz")
        if os.path.exists(tgz):
            with tarfile.open(tgz) as t:
                t.extractall(os.path.join(dst, "SeQuant/external"), filter="data")
        open(mark, "w").close()
    return [dst]


def flags():
    res = sh(["clang++", "-print-resource-dir"]).stdout.strip()
    fl = ["-DSEQUANT_ASSERT_BEHAVIOR_=THROW", "-DSEQUANT_ASSERT_ENABLED",
          "-DSEQUANT_CONTEXT_MANIPULATION_THREADSAFE", "-I" + REPO]
    for i in boost_include():
        fl += ["-isystem", i]
    fl += ["-isystem", "/usr/include/eigen3", "-std=c++20", "-w",
           "-frelaxed-template-template-args", "-ferror-limit=50",
           "-resource-dir", res]
    return fl


_TTP = re.compile(r"(template *<(?:class|typename)> *(?:class|typename) +\w+ *= *)"
                  r"(?:sequant::)?container::svector")


def shim(d):
    """clang 18 rejects a 2-parameter alias template as the default of a
    1-parameter template template parameter (gcc accepts it, P0522).  The
    headers that do so are parsed with the default spelled as a 1-parameter
    alias of the same template; names, lines and semantics are unchanged."""
    fl = []
    sh_h = os.path.join(d, "shim.hpp")
    with open(sh_h, "w") as o:
        o.write("#include <SeQuant/core/container.hpp>\n"
                "template <class T> using sq_shim_svector = "
                "sequant::container::svector<T>;\n")
    fl += ["-include", sh_h]
    for n, f in enumerate(repo_files((".hpp",))):
        p = os.path.join(REPO, f)
        t = open(p, encoding="utf-8", errors="surrogateescape").read()
        t2 = _TTP.sub(r"\1::sq_shim_svector", t)
        if t2 != t:
            q = os.path.join(d, "remap%d.hpp" % n)
            with open(q, "w", encoding="utf-8", errors="surrogateescape") as o:
                o.write(t2)
            fl += ["-Xclang", "-remap-file", "-Xclang", p + ";" + q]
    return fl


def driver_files():
    """translation units of ours that instantiate the header-only templates no
    library source instantiates (analysed, never compiled or run)"""
    d = os.path.join(VERIF, "driver")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]


def tree_key():
    h = hashlib.sha256()
    h.update(open(TOOLSRC, "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    h.update(REPO.encode())
    for f in driver_files():
        h.update(open(f, "rb").read())
    for f in repo_files():
        h.update(f.encode())
        h.update(b"\0")
        h.update(open(os.path.join(REPO, f), "rb").read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _run(args):
    tool, out, src, fl = args
    r = sh([tool, out, REPO, "--", src] + fl)
    errs = [l for l in r.stdout.splitlines() if ": error:" in l or ": fatal error:" in l]
    ok = r.returncode == 0 and not errs and os.path.exists(out)
    if ok:
        # a truncated dump must not pass for a complete one
        with open(out, "rb") as f:
            f.seek(max(0, os.path.getsize(out) - 4096))
            ok = b'"K":"end"' in f.read()
        if not ok:
            errs = ["extractor output truncated"]
    return ok, errs or [r.stdout[-500:]]


def extract(extra_dir=None, verbose=True):
    """returns the list of fact files for the current tree"""
    tool = build_tool()
    key = tree_key()
    d = os.path.join(CACHE, "facts-" + key)
    done = os.path.join(d, "DONE")
    if os.path.exists(done):
        return [os.path.join(d, f) for f in json.load(open(done))]
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "extract.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(done):
            return [os.path.join(d, f) for f in json.load(open(done))]
        for old in os.listdir(CACHE):
            if old.startswith("facts-") and old != "facts-" + key:
                shutil.rmtree(os.path.join(CACHE, old), ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        tus = tu_files()
        if not tus:
            raise Unanalysable("no translation units found under " + REPO)
        ng = 8
        groups = [[] for _ in range(ng)]
        load = [0] * ng
        # largest first on the least loaded group; explicit specialisations of
        # members (op.cpp) have to come first in their group
        for f in sorted(tus, key=lambda f: (-os.path.getsize(os.path.join(REPO, f)), f)):
            i = load.index(min(load))
            groups[i].append(f)
            load[i] += os.path.getsize(os.path.join(REPO, f)) + 4000
        fl = flags() + shim(d)
        jobs = []
        for i, g in enumerate(groups):
            g.sort(key=lambda f: (0 if f.endswith("/op.cpp") else 1, f))
            src = os.path.join(d, "g%d.cpp" % i)
            with open(src, "w") as o:
                for f in g:
                    o.write('#include "%s/%s"\n' % (REPO, f))
            jobs.append((tool, os.path.join(d, "g%d.jsonl" % i), src, fl))
        drv = driver_files()
        djobs = [(tool, os.path.join(d, "d_%s.jsonl" % os.path.basename(f)[:-4]), f,
                  fl + ["-isystem", os.path.join(VERIF, "driver", "stubs")])
                 for f in drv]
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(_run, jobs + djobs))
        outs = []
        again = []
        for f, job, (ok, errs) in zip(drv, djobs, res[len(jobs):]):
            if ok:
                outs.append(os.path.basename(job[1]))
            else:
                # the templates are still analysed where the library itself
                # instantiates them
                print("note: driver %s does not parse (%s)" % (
                    os.path.basename(f), errs[0][:300]))
        for i, (ok, errs) in enumerate(res[:len(jobs)]):
            if ok:
                outs.append("g%d.jsonl" % i)
            else:
                if verbose:
                    print("note: group %d re-analysed file by file (%s)" % (i, errs[0][:200]))
                for j, f in enumerate(groups[i]):
                    again.append((f, (tool, os.path.join(d, "f%d_%d.jsonl" % (i, j)),
                                      os.path.join(REPO, f), fl)))
        if again:
            with cf.ThreadPoolExecutor(6) as ex:
                res = list(ex.map(_run, [a[1] for a in again]))
            for (f, job), (ok, errs) in zip(again, res):
                if not ok:
                    raise Unanalysable("cannot parse %s: %s" % (f, "; ".join(errs[:3])))
                outs.append(os.path.basename(job[1]))
        json.dump(outs, open(done + ".tmp", "w"))
        os.replace(done + ".tmp", done)
        return [os.path.join(d, f) for f in outs]


if __name__ == "__main__":
    try:
        print("\n".join(extract()))
    except Unanalysable as e:
        print("ERROR:", e)
        sys.exit(2)
