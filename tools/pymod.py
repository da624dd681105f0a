"""Offline out-of-tree build of the Python module from /repo's current working tree (cached by content, as build.py)."""
import glob, hashlib, os, re, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import build

PYSRC = os.path.join(build.REPO, "mrobpy")


def python_config():
    r = subprocess.run(["/usr/bin/python3", "-c", "import sysconfig as s; print(s.get_paths()['include']); print(s.get_config_var('EXT_SUFFIX'))"], stdout=subprocess.PIPE, text=True, check=True)
    inc, suffix = r.stdout.split()
    flags = ["-isystem", inc]
    if not os.path.exists("/usr/include/pybind11/pybind11.h"):
        r = subprocess.run(["/usr/bin/python3", "-m", "pybind11", "--includes"], stdout=subprocess.PIPE, text=True)
        flags += r.stdout.split()
    return flags, suffix


def binding_sources():
    text = re.sub(r"#.*", "", open(os.path.join(PYSRC, "CMakeLists.txt")).read())
    names = [os.path.join(PYSRC, n) for n in re.findall(r"[\w./-]+\.cpp", text)]
    return sorted({n for n in names if os.path.exists(n)})


def build_module():
    hh = build.headers_hash([build.SRC]) + build.headers_hash([PYSRC])
    cxx = "/usr/bin/g++"
    work = []
    pyinc, suffix = python_config()

    def add(src, flags):
        key = hashlib.sha256(("|".join(["py1", cxx, *flags, src]) + hh).encode() + build.read(src)).hexdigest()[:32]
        work.append((cxx, flags, src, key))
    for s in binding_sources():
        add(s, ["-std=c++14", "-w", "-O1", "-g0", "-DNDEBUG", "-fPIC", "-fvisibility=hidden", *build.INC, "-I" + PYSRC, *pyinc])
    for s in build.lib_sources():
        add(s, ["-std=c++14", "-w", "-O2", "-g0", "-DNDEBUG", "-fPIC", *build.INC])
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda w: build.compile_one(*w), work))
    errs = [e for _, e in res if e]
    if errs:
        raise RuntimeError("\n".join(errs))
    objs = [o for o, _ in res]
    key = hashlib.sha256("|".join(objs).encode()).hexdigest()[:24]
    d = os.path.join(build.BUILD, "bin", "py-" + key)
    so = os.path.join(d, "mrob" + suffix)
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        fd, tmp = tempfile.mkstemp(dir=d); os.close(fd)
        r = subprocess.run([cxx, "-shared", *objs, "-lpthread", "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError("linking the Python module failed:\n" + r.stdout[-6000:])
        os.chmod(tmp, 0o755); os.replace(tmp, so)
    return d


if __name__ == "__main__":
    t = time.time(); print(build_module(), round(time.time() - t, 1))
