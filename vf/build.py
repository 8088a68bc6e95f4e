"""Builds flavours of /repo's current working tree, out of tree.

A content-synchronised mirror of the sources (build/src) is kept so that ninja's mtime logic is right
even when a file in /repo changes without its mtime moving forward (git checkout, copied trees)."""
import contextlib, fcntl, os, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build") if "VF_BUILD" not in os.environ else os.environ["VF_BUILD"]
MIRROR = os.path.join(BUILD, "src")
SUBDIRS = ["cmake", "extra_src", "include", "m_files", "oct", "opencl", "python", "src", "tests"]

FLAVOURS = {
    "rel": ("-g0", "-O2 -DNDEBUG", "OFF"),
    "asan": ("-g1 -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow", "-O1 -DNDEBUG", "OFF"),
    "tsan": ("-g1 -fno-omit-frame-pointer -fsanitize=thread", "-O1 -DNDEBUG", "OFF"),
    "cl": ("-g0", "-O2 -DNDEBUG", "ON"),
}

class BuildError(Exception):
    pass

@contextlib.contextmanager
def locked():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield

def sync():
    """Mirror REPO's sources into MIRROR by content; returns list of changed relative paths."""
    os.makedirs(MIRROR, exist_ok=True)
    want, changed = set(), []
    def one(rel):
        want.add(rel)
        s, d = os.path.join(REPO, rel), os.path.join(MIRROR, rel)
        try:
            data = open(s, "rb").read()
        except OSError:
            want.discard(rel)
            return
        try:
            if open(d, "rb").read() == data:
                return
        except OSError:
            pass
        os.makedirs(os.path.dirname(d), exist_ok=True)
        with open(d, "wb") as f:
            f.write(data)
        changed.append(rel)
    one("CMakeLists.txt")
    for sd in SUBDIRS:
        for dp, dn, fn in os.walk(os.path.join(REPO, sd)):
            dn[:] = [x for x in dn if x not in ("__pycache__", ".git")]
            for f in fn:
                one(os.path.relpath(os.path.join(dp, f), REPO))
    for f in os.listdir(REPO):
        if os.path.isfile(os.path.join(REPO, f)) and f != "CMakeLists.txt" and not f.startswith("."):
            one(f)
    # other top-level directories that CMakeLists.txt may include (small ones only)
    for sd in ("julia", "mex"):
        for dp, dn, fn in os.walk(os.path.join(REPO, sd)):
            for f in fn:
                one(os.path.relpath(os.path.join(dp, f), REPO))
    for dp, dn, fn in os.walk(MIRROR):
        for f in fn:
            rel = os.path.relpath(os.path.join(dp, f), MIRROR)
            if rel not in want:
                os.unlink(os.path.join(dp, f))
                changed.append(rel)
    return changed

def ensure(flavour, targets):
    """Configure if needed and build targets; returns the build directory."""
    if os.environ.get("VF_NOBUILD"):
        return os.path.join(BUILD, flavour)
    with locked():
        return _ensure(flavour, targets)

def _ensure(flavour, targets):
    changed = sync()
    extra, opt, cl = FLAVOURS[flavour]
    d = os.path.join(BUILD, flavour)
    env = {k: v for k, v in os.environ.items()
           if k not in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "CC", "CXX")}
    env["GIT_CEILING_DIRECTORIES"] = BUILD
    log = os.path.join(BUILD, flavour + ".log")
    # New or removed files and .cl kernels matter at configure time, so always configure.
    if cl == "ON":
        # kernels become headers at configure time
        shutil.rmtree(os.path.join(d, "opencl"), ignore_errors=True)
    with open(log, "w") as lf:
        def run(cmd):
            r = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env)
            if r.returncode:
                raise BuildError("build failed (%s): see %s\n%s" % (" ".join(cmd[:3]), log, open(log).read()[-3000:]))
        run(["cmake", "-S", MIRROR, "-B", d, "-G", "Ninja",
             "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
             "-DCMAKE_CXX_FLAGS=-Wno-error -w " + extra, "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=" + opt,
             "-DPython_EXECUTABLE=/usr/local/bin/python3" if os.path.exists("/usr/local/bin/python3") else "-DX=1",
             "-DBUILD_OCT=ON", "-DBUILD_PYTHON=ON", "-DBUILD_TESTS=OFF", "-DBUILD_MEX=OFF",
             "-DBUILD_JULIA=OFF", "-DBUILD_USERMAN=OFF", "-DUSE_OPENCL=" + cl])
        if "all" in targets:
            t = []
        else:
            t = list(dict.fromkeys(targets))
        run(["ninja", "-C", d] + t)
    return d

def native():
    """Builds the LD_PRELOAD monitors; returns dict name -> path."""
    with locked():
        return _native()

def _native():
    d = os.path.join(BUILD, "native")
    os.makedirs(d, exist_ok=True)
    out = {}
    for f in sorted(os.listdir(os.path.join(ROOT, "native"))):
        if not f.endswith(".c"):
            continue
        so = os.path.join(d, f[:-2] + ".so")
        src = os.path.join(ROOT, "native", f)
        if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
            tmp = so + ".%d" % os.getpid()
            r = subprocess.run(["gcc", "-O1", "-g", "-shared", "-fPIC", "-o", tmp, src, "-ldl", "-lpthread"],
                               capture_output=True, text=True)
            if r.returncode:
                raise BuildError("native monitor %s: %s" % (f, r.stderr))
            os.replace(tmp, so)
        out[f[:-2]] = so
    return out
