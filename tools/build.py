"""Offline build of the harness against /repo's current working tree.

Objects are cached under /verif/build keyed by the content of the source, of
every header it can see and of the flags, so a changed tree is always rebuilt,
whatever its timestamps say, and an unchanged one never is.
"""
import glob, hashlib, os, re, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
MODULES = ["common", "geometry", "FGraph", "PCRegistration"]
INC = ["-I" + os.path.join(SRC, m) for m in MODULES] + ["-isystem", "/usr/include/eigen3"]
HARNESS = os.path.join(VERIF, "harness")

VARIANTS = {
    # the shipped configuration: optimised, assertions off
    "plain": dict(cxx="g++", flags=["-O2", "-g0", "-DNDEBUG"], hflags=["-O1", "-g0", "-DNDEBUG"], link=[]),
    # address + undefined-behaviour sanitizers; library assertions and matrix bounds checks on
    "asan": dict(cxx="g++", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                   "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
                 hflags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                         "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-DVP_ASAN"],
                 link=["-fsanitize=address,undefined"]),
    # data races between independent instances
    "tsan": dict(cxx="g++", flags=["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread"], hflags=["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread", "-DVP_TSAN"], link=["-fsanitize=thread"]),
}


# modules each harness group links (all of them when that turns out not to suffice)
GROUP_MODULES = {"geometry": ["common", "geometry"], "graph": ["common", "geometry", "FGraph", "PCRegistration"],
                 "registration": ["common", "geometry", "FGraph", "PCRegistration"], "system": ["common"]}


def lib_sources(modules=MODULES):
    """The library sources: what the modules' own build lists name, as in the real build."""
    out = []
    for m in modules:
        names = []
        cm = os.path.join(SRC, m, "CMakeLists.txt")
        if os.path.exists(cm):
            text = re.sub(r"#.*", "", open(cm).read())
            names = [os.path.join(SRC, m, n) for n in re.findall(r"[\w./-]+\.cpp", text)]
            if re.search(r"GLOB", text):
                names += glob.glob(os.path.join(SRC, m, "*.cpp"))
        names = [n for n in names if os.path.exists(n)]
        out += names
    return sorted(set(out))


def read(p):
    with open(p, "rb") as f:
        return f.read()


def headers_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            if "/build" in root or "/_build" in root:
                continue
            for f in sorted(files):
                if f.endswith((".hpp", ".h", ".inl", ".tpp", ".hxx")):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(read(p))
    return h.hexdigest()


def compile_one(cxx, flags, src, key):
    os.makedirs(os.path.join(BUILD, "cache"), exist_ok=True)
    obj = os.path.join(BUILD, "cache", key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj, None
    fd, tmp = tempfile.mkstemp(suffix=".o", dir=os.path.join(BUILD, "cache")); os.close(fd)
    r = subprocess.run([cxx, *flags, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        if os.path.exists(tmp): os.unlink(tmp)
        return None, "compiling %s failed:\n%s" % (src, r.stdout[-6000:])
    os.replace(tmp, obj)
    return obj, None


def build(group, variant="plain", prop=None, jobs=8, modules=None):
    """Build the harness binary of `group` (only the checks of `prop` when given); returns its path."""
    v = VARIANTS[variant]
    mods = modules or GROUP_MODULES.get(group, MODULES)
    hh_lib = headers_hash([SRC])
    hh_har = headers_hash([HARNESS])
    work = []

    def add(src, flags, extra):
        key = hashlib.sha256(("|".join(["2", v["cxx"], *flags, src]) + extra).encode() + read(src)).hexdigest()[:32]
        work.append((v["cxx"], flags, src, key))
    flags = ["-std=c++14", "-w", *v["hflags"], *os.environ.get("VERIF_ALL_CXXFLAGS", "").split(), *INC, "-I" + HARNESS]
    if prop:
        flags += ["-DVP_ONLY=1", "-DVP_%s=1" % prop]
    add(os.path.join(HARNESS, group + ".cpp"), flags, hh_lib + hh_har)   # the slow one goes first
    extra = (os.environ.get("VERIF_LIB_CXXFLAGS", "") + " " + os.environ.get("VERIF_ALL_CXXFLAGS", "")).split()   # development only: other optimisation settings for the library
    for s in lib_sources(mods):
        add(s, ["-std=c++14", "-w", *v["flags"], *extra, *INC], hh_lib)
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda w: compile_one(*w), work))
    errs = [e for _, e in res if e]
    if errs:
        raise RuntimeError("\n".join(errs))
    objs = [o for o, _ in res]
    bindir = os.path.join(BUILD, "bin")
    os.makedirs(bindir, exist_ok=True)
    key = hashlib.sha256(("|".join(objs) + variant).encode()).hexdigest()[:24]
    exe = os.path.join(bindir, "%s-%s-%s" % (prop or group, variant, key))
    if not os.path.exists(exe):
        fd, tmp = tempfile.mkstemp(dir=bindir); os.close(fd)
        r = subprocess.run([v["cxx"], *v["link"], *objs, "-lpthread", "-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            if os.path.exists(tmp): os.unlink(tmp)
            if set(mods) != set(MODULES):
                return build(group, variant, prop, jobs, MODULES)
            raise RuntimeError("linking %s failed:\n%s" % (group, r.stdout[-6000:]))
        os.chmod(tmp, 0o755); os.replace(tmp, exe)
    else:
        os.utime(exe)
    prune()
    return exe


def prune(limit=3 << 30):
    files = []
    for d in ("cache", "bin"):
        for f in glob.glob(os.path.join(BUILD, d, "*")):
            try:
                st = os.stat(f); files.append((st.st_mtime, st.st_size, f))
            except OSError:
                pass
    tot = sum(s for _, s, _ in files)
    for m, s, f in sorted(files):
        if tot < limit or time.time() - m < 3600:
            break
        try:
            os.unlink(f); tot -= s
        except OSError:
            pass


if __name__ == "__main__":
    t = time.time()
    args = sys.argv[1:]
    variant = args.pop(0) if args and args[0] in VARIANTS else "plain"
    for a in args:
        g, _, p = a.partition(":")
        print(build(g, variant, p or None))
    print("%.1fs" % (time.time() - t), file=sys.stderr)
