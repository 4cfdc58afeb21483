"""Builds the driver from /repo's current sources, one build per sanitizer family."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EOPSI_REPO", "/repo")
LIBS = ["-lntl", "-lgmpxx", "-lgmp", "-lcryptopp", "-lpthread", "-ldl"]
COMMON = ["-std=c++17", "-w", "-g1", "-fno-omit-frame-pointer"]
# containers and NTL vectors check their indexes
CHECKED = ["-D_GLIBCXX_ASSERTIONS", "-DNTL_RANGE_CHECK"]
# (see driver/races.cpp)
WRAPPED = """_Z10_ntl_gcopyP17_ntl_gbigint_bodyPS0_  _Z9_ntl_gaddP17_ntl_gbigint_bodyS0_PS0_  _Z9_ntl_gsubP17_ntl_gbigint_bodyS0_PS0_
_Z10_ntl_gsaddP17_ntl_gbigint_bodylPS0_  _Z10_ntl_gssubP17_ntl_gbigint_bodylPS0_  _Z9_ntl_gmulP17_ntl_gbigint_bodyS0_PS0_
_Z10_ntl_gsmulP17_ntl_gbigint_bodylPS0_  _Z8_ntl_gsqP17_ntl_gbigint_bodyPS0_  _Z9_ntl_gmodP17_ntl_gbigint_bodyS0_PS0_
_Z9_ntl_gdivP17_ntl_gbigint_bodyS0_PS0_S1_  _Z11_ntl_gintozlPP17_ntl_gbigint_body  _Z12_ntl_guintozmPP17_ntl_gbigint_body
_Z12_ntl_glshiftP17_ntl_gbigint_bodylPS0_  _Z12_ntl_grshiftP17_ntl_gbigint_bodylPS0_  _Z12_ntl_gmulmodP17_ntl_gbigint_bodyS0_S0_PS0_
_Z12_ntl_gaddmodP17_ntl_gbigint_bodyS0_S0_PS0_  _Z12_ntl_gsubmodP17_ntl_gbigint_bodyS0_S0_PS0_  _Z10_ntl_gswapPP17_ntl_gbigint_bodyS1_
_Z10_ntl_gzeroPP17_ntl_gbigint_body  _Z9_ntl_gonePP17_ntl_gbigint_body  _Z12_ntl_gnegatePP17_ntl_gbigint_body
_Z12_ntl_gsetbitPP17_ntl_gbigint_bodyl  _Z15_ntl_gfrombytesPP17_ntl_gbigint_bodyPKhl  _Z13_ntl_glowbitsP17_ntl_gbigint_bodylPS0_""".split()
# (see driver/main.cpp)
NEW = ["_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"]
FLAVOURS = {
    "asan": ("g++", ["-O1"] + CHECKED + ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    # (clang's instruments every store, gcc's not those of call results; the optimiser turns shared variables into local ones)
    "tsan": ("clang++", ["-O0", "-fsanitize=thread"]),
    "plain": ("g++", ["-O1"]),
    "clang": ("clang++", ["-O1"] + CHECKED + ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "o2": ("g++", ["-O2", "-fstack-protector-strong", "-D_GLIBCXX_ASSERTIONS"]),
}


class BuildError(Exception):
    pass


def _root():
    for d in (os.path.join(VERIF, "build"), os.path.join(tempfile.gettempdir(), "eopsi-verif-build")):
        try:
            os.makedirs(d, exist_ok=True)
            t = os.path.join(d, ".w%d" % os.getpid())
            open(t, "w").close()
            os.unlink(t)
            return d
        except OSError:
            continue
    return tempfile.mkdtemp(prefix="eopsi-verif-")


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, "src/libeopsi/**/*.cpp"), recursive=True))


def _headers():
    h = []
    for base in (os.path.join(REPO, "src"), os.path.join(VERIF, "driver")):
        for pat in ("*.h", "*.hpp", "libeopsi/**/*.h", "libeopsi/**/*.hpp", "libeopsi/**/*.inc", "libeopsi/**/*.ipp"):
            h += glob.glob(os.path.join(base, pat), recursive=True)
    return sorted(x for x in set(h) if os.path.basename(x) != "config.h")


def _compile(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode("utf-8", "replace"))


def _objects(root, cxx, flags, sources, hh):
    """objects of the sources, from the cache or compiled (in parallel)"""
    objs, todo = [], []
    for s in sources:
        key = hashlib.sha256((cxx + " " + " ".join(flags)).encode() + hh + s.encode() + _read(s)).hexdigest()[:24]
        o = os.path.join(root, "obj", key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((s, o))

    def one(so):
        s, o = so
        t = o + ".tmp%d" % os.getpid()
        _compile([cxx] + flags + ["-c", s, "-o", t])
        os.rename(t, o)

    # the slow ones first
    todo.sort(key=lambda so: ("driver" not in so[0], so[0]))
    with cf.ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
        list(ex.map(one, todo))
    return objs


def _prepare(root):
    os.makedirs(os.path.join(root, "obj"), exist_ok=True)
    inc = os.path.join(root, "inc")
    os.makedirs(inc, exist_ok=True)
    cfg = os.path.join(inc, "config.h")
    if not os.path.exists(cfg):
        with open(cfg + ".tmp%d" % os.getpid(), "w") as f:
            f.write("#define HAVE_PTHREAD_H 1\n")
        os.rename(cfg + ".tmp%d" % os.getpid(), cfg)
    return inc


def _link(root, name, cxx, flags, objs, libs=LIBS):
    key = hashlib.sha256((cxx + " ".join(flags + libs) + "|".join(objs)).encode()).hexdigest()[:24]
    exe = os.path.join(root, name + "-" + key)
    if not os.path.exists(exe):
        t = exe + ".tmp%d" % os.getpid()
        _compile([cxx] + flags + objs + ["-o", t] + libs)
        os.rename(t, exe)
    return exe


class _Lock:
    def __init__(self, root):
        self.f = open(os.path.join(root, ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _hash_headers():
    hh = hashlib.sha256()
    for h in _headers():
        hh.update(h.encode() + b"\0" + _read(h))
    return hh.digest()


def _trim(root):
    """keep the cache small"""
    try:
        fs = [os.path.join(d, f) for d, _, fl in os.walk(root) for f in fl if not f.startswith(".")]
        if sum(os.path.getsize(f) for f in fs) > 1500 << 20:
            for f in sorted(fs, key=os.path.getmtime)[: len(fs) // 2]:
                if not f.endswith("config.h"):
                    os.unlink(f)
    except OSError:
        pass


def driver(flavour="asan"):
    cxx, san = FLAVOURS[flavour]
    if cxx == "clang++":
        cxx = "/usr/bin/clang++" if os.path.exists("/usr/bin/clang++") else shutil.which("clang++")
        if not cxx:
            raise BuildError("no clang++")
    root = _root()
    with _Lock(root):
        _trim(root)
        inc = _prepare(root)
        flags = COMMON + san + ["-I" + os.path.join(VERIF, "driver"), "-I" + inc,
                                "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "src/libeopsi")]
        src = sorted(glob.glob(os.path.join(VERIF, "driver/*.cpp"))) + lib_sources()
        objs = _objects(root, cxx, flags, src, _hash_headers())
        libs = ["-Wl,--wrap=" + s for s in NEW] + LIBS
        if flavour == "tsan":
            libs = ["-Wl,--wrap=" + s for s in WRAPPED + NEW] + ["-l:libntl.a", "-l:libgf2x.so.3"] + LIBS[1:]
        return _link(root, "drv-" + flavour, cxx, COMMON + san, objs, libs)


def program(name, flavour="asan"):
    """one of the utility programs of the repository"""
    cxx, san = FLAVOURS[flavour]
    root = _root()
    with _Lock(root):
        inc = _prepare(root)
        flags = COMMON + san + ["-I" + inc, "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "src/libeopsi"),
                                "-I" + os.path.join(REPO, "src/test")]
        hh = _hash_headers()
        for h in sorted(glob.glob(os.path.join(REPO, "src/test/*.h"))):
            hh += _read(h)
        objs = _objects(root, cxx, flags, [os.path.join(REPO, "src/test", name + ".cpp")] + lib_sources(), hh)
        return _link(root, "prog-" + name + "-" + flavour, cxx, COMMON + san, objs)
