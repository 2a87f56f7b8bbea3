"""The Python wrapper: a scratch package made of /repo's files and a native library of our own."""
import glob, os, re, shutil, sys
NEEDS = ["py_watch.py", "py_explore.py", "py_shim.c"]


def programs(c, job):
    src = os.path.join(c.REPO, "watcher-py/watcher")
    files = sorted(f for f in glob.glob(src + "/*.py"))
    h = c.digest(*[c.readf(f) for f in files], *[c.readf(os.path.join(c.V, "harness", n)) for n in NEEDS])
    base = os.path.join(c.B, "py")
    d = os.path.join(base, h)
    if not os.path.exists(d):
        tmp = d + f".tmp{os.getpid()}"
        pkg = os.path.join(tmp, "watcher")
        libs = os.path.join(pkg, ".wtr_watcher.mesonpy.libs")
        os.makedirs(libs)
        for f in files:
            shutil.copy(f, pkg)
        text = "".join(c.readf(f).decode(errors="replace") for f in files)
        vers = sorted(set(re.findall(r"\d+\.\d+\.\d+", text)))
        one = os.path.join(tmp, "shim.so")
        c.need(["gcc", "-O1", "-g", "-shared", "-fPIC", os.path.join(c.V, "harness/py_shim.c"), "-o", one, "-lpthread"], "building the native stand-in")
        for v in vers:
            if not os.path.exists(os.path.join(libs, "a")):
                shutil.copy(one, os.path.join(libs, f"libwatcher-c.so.{v}"))
        os.makedirs(tmp + "/nolib")
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp)
    nolib = d + "-nolib"
    if not os.path.exists(nolib):
        shutil.copytree(d, nolib, ignore=shutil.ignore_patterns(".wtr_watcher*"))
    env = dict(PYW_DIR=d, PYTHONDONTWRITEBYTECODE="1", PYTHONMALLOC="debug", PYTHONHASHSEED="0")
    return [("watcher-py", [sys.executable, "-B", os.path.join(c.V, "harness/py_watch.py")], env)]
