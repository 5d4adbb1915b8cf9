"""Builds the extractor, runs it on /repo's current tree and loads the facts."""
import fcntl
import concurrent.futures
import hashlib
import json
import os
import pickle
import shlex
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.environ.get("SA_BUILD", os.path.join(VERIF, "build"))
PREFIX = "/opt/hpp-venv/lib/python3.12/site-packages/cmeel.prefix"
TOOLSRC = os.path.join(VERIF, "tool", "extract.cc")
WITNESS = os.path.join(VERIF, "witness", "instantiate.cc")


class Broken(Exception):
    """The analysis could not be carried out (neither a pass nor a violation)."""


def _sha(*chunks):
    h = hashlib.sha256()
    for c in chunks:
        if isinstance(c, str):
            c = c.encode()
        h.update(c)
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def tool():
    """Compile the libTooling extractor (once per content of extract.cc)."""
    os.makedirs(BUILD, exist_ok=True)
    h = _sha(_read(TOOLSRC))
    exe = os.path.join(BUILD, "extract-" + h)
    if os.path.exists(exe):
        return exe
    tmp = exe + ".tmp%d" % os.getpid()
    r = _run(["clang++", "-O1", "-std=c++17", "-fno-rtti", "-w",
              "-I/usr/lib/llvm-18/include", TOOLSRC, "-o", tmp,
              "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1",
              "-L/usr/lib/llvm-18/lib", "-lLLVM-18",
              "-Wl,-rpath,/usr/lib/llvm-18/lib"])
    if r.returncode:
        raise Broken("cannot build the extractor:\n" + r.stdout[-3000:])
    os.replace(tmp, exe)
    return exe


def compdb():
    """Compilation database of the real build (cmake of /repo, own build dir)."""
    cm = os.path.join(BUILD, "cm")
    stamp = os.path.join(cm, "sa-stamp")
    h = _sha(_read(os.path.join(REPO, "CMakeLists.txt")), REPO)
    db = os.path.join(cm, "compile_commands.json")
    if not (os.path.exists(db) and os.path.exists(stamp)
            and _read(stamp).decode() == h):
        shutil.rmtree(cm, ignore_errors=True)
        os.makedirs(cm)
        env = dict(os.environ)
        env.update(CC="/usr/bin/gcc", CXX="/usr/bin/g++",
                   LD_LIBRARY_PATH=PREFIX + "/lib:" + PREFIX + "/lib64",
                   PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:"
                        "/sbin:/bin", GIT_OPTIONAL_LOCKS="0")
        r = _run(["cmake", "-S", REPO, "-B", cm, "-G", "Ninja",
                  "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                  "-DCMAKE_CXX_FLAGS=-Wno-error -w -include map",
                  "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1 -g1",
                  "-DBUILD_TESTING=OFF", "-DINSTALL_DOCUMENTATION=OFF",
                  "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
                  "-DCMAKE_PREFIX_PATH=" + PREFIX,
                  "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"], env=env)
        if r.returncode or not os.path.exists(db):
            raise Broken("cmake configuration of /repo failed:\n"
                         + r.stdout[-3000:])
        with open(stamp, "w") as f:
            f.write(h)
    res = []
    for e in json.load(open(db)):
        f = os.path.realpath(os.path.join(e["directory"], e["file"]))
        if not f.endswith((".cc", ".cpp", ".cxx")):
            continue
        if not f.startswith(os.path.realpath(REPO) + "/"):
            continue
        toks = shlex.split(e["command"])[1:]
        flags = []
        i = 0
        while i < len(toks):
            t = toks[i]
            if t in ("-o", "-MF", "-MT", "-MQ"):
                i += 2
                continue
            if t in ("-c", "-MD", "-fopenmp") or t.startswith("-O") \
                    or t.startswith("-g") or t == e["file"] \
                    or (t.startswith("-W") and not t.startswith("-Wp,")):
                i += 1
                continue
            flags.append(t)
            i += 1
        if not any(t.startswith("-std=") for t in flags):
            flags.append("-std=c++17")
        flags += ["-w", "-fsyntax-only"]
        res.append((f, flags))
    if len(res) < 20:
        raise Broken("the compilation database lists only %d units" % len(res))
    return res


def repo_files():
    out = []
    for top in ("src", "include"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                out.append(os.path.join(d, f))
    out.append(os.path.join(REPO, "CMakeLists.txt"))
    return sorted(out)


def _extract(exe, f, flags, out, resdir):
    r = _run([exe, os.path.realpath(REPO) + "/",
              os.path.realpath(REPO) + "/_build/",
              os.path.join(VERIF, "witness") + "/", out, f, "--"]
             + flags + ["-resource-dir", resdir])
    if r.returncode or not os.path.exists(out):
        raise Broken("cannot parse %s:\n%s" % (f, r.stdout[-3000:]))
    return json.load(open(out))


def _unit(exe, f, flags, out, resdir, hh):
    """Facts of one translation unit, cached by the content it depends on."""
    text = _read(f)
    if b'.cc"' in text or b".cc>" in text or not hh:
        return _extract(exe, f, flags, out, resdir)
    d = os.path.join(BUILD, "tu")
    os.makedirs(d, exist_ok=True)
    c = os.path.join(d, _sha(exe, f, text, repr(flags), hh) + ".pickle")
    if os.path.exists(c):
        try:
            with open(c, "rb") as g:
                r = pickle.load(g)
            os.utime(c)
            return r
        except Exception:
            pass
    r = _extract(exe, f, flags, out, resdir)
    tmp = c + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as g:
        pickle.dump(r, g, protocol=4)
    os.replace(tmp, c)
    return r


def _trim(d, n):
    """Keeps the n most recent files of a cache directory."""
    try:
        fs = sorted((os.path.join(d, x) for x in os.listdir(d)),
                    key=os.path.getmtime)
        for x in fs[:-n]:
            os.unlink(x)
    except OSError:
        pass


def load(verbose=False):
    """Returns the merged facts of the current tree as a list of declarations."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)      # checks may run side by side
        return _load()


def _load():
    t0 = time.time()
    exe = tool()
    db = compdb()
    wit = []
    if os.path.exists(WITNESS):
        wit = [(WITNESS, db[0][1])]
    h = _sha(exe, *([f for f in repo_files()] + [_read(f) for f in repo_files()]
                    + [repr(db)] + [_read(w[0]) for w in wit]))
    cache = os.path.join(BUILD, "facts-%s.pickle" % h)
    if os.path.exists(cache):
        try:
            with open(cache, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    resdir = _run(["clang++", "-print-resource-dir"]).stdout.strip()
    outd = os.path.join(BUILD, "out-%d" % os.getpid())
    os.makedirs(outd, exist_ok=True)
    jobs = []
    hh = _sha(REPO, *[x for f in repo_files() if not f.endswith(".cc")
                      for x in (f, _read(f))])
    # heaviest units first
    order = sorted(db + wit, key=lambda e: -os.path.getsize(e[0]))
    tus = {}
    try:
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for n, (f, flags) in enumerate(order):
                jobs.append((f, ex.submit(_unit, exe, f, flags,
                                          os.path.join(outd, "%d.json" % n),
                                          resdir, hh)))
            for f, j in jobs:
                tus[f] = j.result()
    finally:
        shutil.rmtree(outd, ignore_errors=True)
    facts = {"decls": [], "files": set(), "tus": sorted(tus)}
    seen = {}
    for f in sorted(tus):
        for d in tus[f]:
            if d["kind"] == "files":
                facts["files"].update(d["v"])
                continue
            key = (d["kind"], d.get("u") or d["q"], d.get("ta"), d.get("cta"))
            if key in seen:
                continue
            seen[key] = d
            d["tu"] = f
            facts["decls"].append(d)
    _trim(os.path.join(BUILD, "tu"), 120)
    facts["extract_s"] = time.time() - t0
    for old in os.listdir(BUILD):
        if old.startswith("facts-"):
            try:
                os.unlink(os.path.join(BUILD, old))
            except OSError:
                pass
    tmp = cache + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump(facts, f, protocol=4)
    os.replace(tmp, cache)
    return facts


if __name__ == "__main__":
    try:
        fs = load()
    except Broken as e:
        print("ANALYSIS-BROKEN:", e)
        sys.exit(2)
    print("%d declarations from %d units (%.1f s)" %
          (len(fs["decls"]), len(fs["tus"]), fs["extract_s"]))
