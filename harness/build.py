"""Build the code under test out of /repo's working tree.

The Python sources and the two C++ extensions are taken from /repo as they are now; the
result goes to a directory named by a hash of those sources, so that nothing stale is ever
used.  Nothing is written to /repo or /opt/vp.
"""
import hashlib, os, shutil, subprocess, sys, sysconfig, tempfile, time

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(os.path.dirname(HERE), ".cache")
EXTS = (".py", ".cpp", ".h", ".hh", ".cc", ".hpp")


class BuildError(Exception):
    pass


def sources():
    out = []
    for top in ("src", "lib"):
        for root, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(d for d in dirs if d not in ("__pycache__", "build") and not d.endswith(".egg-info"))
            for f in sorted(files):
                if f.endswith(EXTS):
                    out.append(os.path.join(root, f))
    return out


def digest(files):
    h = hashlib.sha256()
    for f in files:
        h.update(os.path.relpath(f, REPO).encode())
        with open(f, "rb") as fin:
            h.update(hashlib.sha256(fin.read()).digest())
    with open(__file__, "rb") as fin:
        h.update(fin.read())
    return h.hexdigest()[:20]


def _compile(dst):
    import pybind11
    inc = ["-I" + os.path.join(dst, "lib/voro++"), "-I" + pybind11.get_include(),
           "-I" + sysconfig.get_paths()["include"]]
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    src = os.path.join(dst, "src", "pyscal")
    units = {"atom": src + "/atom.cpp", "atom_binding": src + "/atom_binding.cpp",
             "system": src + "/system.cpp", "system_binding": src + "/system_binding.cpp",
             "voro": os.path.join(dst, "lib/voro++/voro++.cc")}
    flags = ["g++", "-c", "-O1", "-fPIC", "-std=c++17", "-fvisibility=hidden", "-w"] + inc
    procs = {}
    for name, path in units.items():
        obj = os.path.join(dst, name + ".o")
        procs[name] = subprocess.Popen(flags + [path, "-o", obj], stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, text=True)
    for name, p in procs.items():
        out, _ = p.communicate()
        if p.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (name, out[-3000:]))
    o = lambda *n: [os.path.join(dst, x + ".o") for x in n]
    links = [("catom", o("atom", "atom_binding")),
             ("csystem", o("system", "system_binding", "atom", "voro"))]
    ps = [subprocess.Popen(["g++", "-shared"] + objs + ["-o", os.path.join(src, name + suffix)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
          for name, objs in links]
    for p in ps:
        out, _ = p.communicate()
        if p.returncode != 0:
            raise BuildError("linking failed:\n" + out[-3000:])
    for name in units:
        os.remove(os.path.join(dst, name + ".o"))


def build(log=lambda s: None):
    """Return the directory to put on sys.path."""
    files = sources()
    key = digest(files)
    os.makedirs(CACHE, exist_ok=True)
    final = os.path.join(CACHE, "build-" + key)
    if os.path.exists(os.path.join(final, "ok")):
        return os.path.join(final, "src"), key
    t0 = time.time()
    # older builds are of no use
    for d in os.listdir(CACHE):
        if d.startswith("build-") and time.time() - os.path.getmtime(os.path.join(CACHE, d)) > 1800:
            shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=CACHE)
    try:
        for f in files:
            t = os.path.join(tmp, os.path.relpath(f, REPO))
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copyfile(f, t)
        _compile(tmp)
        open(os.path.join(tmp, "ok"), "w").close()
        try:
            os.rename(tmp, final)
        except OSError:
            if not os.path.exists(os.path.join(final, "ok")):
                raise
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    log("built in %.1f s" % (time.time() - t0))
    return os.path.join(final, "src"), key


if __name__ == "__main__":
    print(build(print))
