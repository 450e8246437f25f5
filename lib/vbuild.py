"""Builds /repo's working tree (plugin, standalone, clang-tidy module) and the driver, outside /repo."""
import os, subprocess, sys, time, shutil, fcntl, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
LLVM = "/usr/lib/llvm-20"
CLANG = LLVM + "/bin/clang"
CLANGXX = LLVM + "/bin/clang++"
TIDY = LLVM + "/bin/clang-tidy"
APPLY = LLVM + "/bin/clang-apply-replacements"


def clean_env(extra=None):
    env = {k: v for k, v in os.environ.items()
           if k not in ("CLANGXX", "CLAZY_CXX", "CLAZY_CHECKS", "QT_SELECT") and not k.startswith("CLAZY_") and k != "MAKEFLAGS"}
    env["PATH"] = LLVM + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env["LLVM_ROOT"] = LLVM
    env["LC_ALL"] = env["LANG"] = "C.UTF-8"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    if extra:
        env.update(extra)
    return env


class Build:
    pass


def _run(cmd, log, cwd=None):
    with open(log, "ab") as f:
        f.write(("\n$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        return subprocess.call(cmd, stdout=f, stderr=f, env=clean_env(), cwd=cwd)


def _mirror():
    """Copies /repo's working tree (without tests and build folders) to ROOT/src, touching only files whose content differs,
    so that what gets rebuilt depends on content and not on file times."""
    dst = os.path.join(ROOT, "src")
    want = set()
    for d, dirs, files in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        if rel == ".":
            dirs[:] = [x for x in dirs if x not in (".git", "tests") and not x.startswith("_build")]
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            sp, dp = os.path.join(REPO, r), os.path.join(dst, r)
            if os.path.islink(sp) and not os.path.exists(sp):
                continue
            want.add(r)
            with open(sp, "rb") as fh:
                data = fh.read()
            try:
                with open(dp, "rb") as fh:
                    if fh.read() == data:
                        continue
            except OSError:
                pass
            os.makedirs(os.path.dirname(dp), exist_ok=True)
            with open(dp, "wb") as fh:
                fh.write(data)
    for d, dirs, files in os.walk(dst):
        for f in files:
            if os.path.normpath(os.path.join(os.path.relpath(d, dst), f)) not in want:
                os.unlink(os.path.join(d, f))
    os.makedirs(os.path.join(dst, "tests"), exist_ok=True)
    return dst


def _configure(bdir, unity, log):
    cmd = ["cmake", "-G", "Ninja", "-S", os.path.join(ROOT, "src"), "-B", bdir, "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_FLAGS=-O1",
           "-DCMAKE_C_COMPILER=/usr/bin/clang-20", "-DCMAKE_CXX_COMPILER=/usr/bin/clang++-20",
           "-DLLVM_ROOT=" + LLVM, "-DCLAZY_BUILD_CLANG_TIDY=ON", "-DCLAZY_MAN_PAGE=OFF", "-DGIT_EXECUTABLE=OFF"]
    if unity:
        cmd.append("-DCMAKE_PROJECT_INCLUDE=" + os.path.join(VERIF, "cmake", "unity.cmake"))
    return _run(cmd, log)


def _drv_cmd(out):
    return [CLANGXX + "", "-std=c++20", "-O1", "-fno-rtti", "-fno-exceptions", "-I" + LLVM + "/include",
            os.path.join(VERIF, "engine", "drv.cpp"), "-o", out, "-L" + LLVM + "/lib", "-lclang-cpp", "-lLLVM-20",
            "-Wl,-rpath," + LLVM + "/lib", "-rdynamic", "-lpthread", "-ldl"]


def build(targets=("ClazyPlugin", "clazy-standalone"), driver=True):
    """Returns a Build with .plugin .standalone .tidy .drv .seconds .cold; exits 2 when the tree does not build."""
    t0 = time.time()
    os.makedirs(ROOT, exist_ok=True)
    lock = open(os.path.join(ROOT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    b = Build()
    b.cold = not os.path.exists(os.path.join(ROOT, "fast", "lib", "ClazyPlugin.so"))
    log = os.path.join(ROOT, "build.log")
    open(log, "w").close()
    drv = os.path.join(ROOT, "drv")
    p = None
    if driver:
        src = os.path.join(VERIF, "engine", "drv.cpp")
        stamp = hashlib.sha256(open(src, "rb").read()).hexdigest()
        sf = drv + ".stamp"
        if not (os.path.exists(drv) and os.path.exists(sf) and open(sf).read() == stamp):
            dlog = open(os.path.join(ROOT, "drv.log"), "wb")
            p = subprocess.Popen(_drv_cmd(drv), stdout=dlog, stderr=dlog, env=clean_env())
    _mirror()
    ok = False
    for name, unity in (("fast", True), ("plain", False)):
        bdir = os.path.join(ROOT, name)
        if _configure(bdir, unity, log) == 0 and _run(["ninja", "-C", bdir] + list(targets), log) == 0:
            ok = True
            break
    if p is not None:
        if p.wait() != 0:
            sys.stderr.write(open(os.path.join(ROOT, "drv.log")).read()[-4000:])
            sys.exit(2)
        with open(sf, "w") as f:
            f.write(stamp)
    if not ok:
        sys.stderr.write(open(log, errors="replace").read()[-6000:])
        sys.stderr.write("\n/repo does not build\n")
        sys.exit(2)
    b.dir = bdir
    b.plugin = os.path.join(bdir, "lib", "ClazyPlugin.so")
    b.tidy = os.path.join(bdir, "lib", "ClazyClangTidy.so")
    b.standalone = os.path.join(bdir, "bin", "clazy-standalone")
    b.drv = drv
    b.seconds = time.time() - t0
    fcntl.flock(lock, fcntl.LOCK_UN)
    return b


def helper(name, src, flags):
    """Builds a helper program from engine/ (an oracle, not code of /repo) once; returns its path."""
    os.makedirs(ROOT, exist_ok=True)
    out = os.path.join(ROOT, name)
    cmd = [CLANGXX, "-O1", os.path.join(VERIF, "engine", src), "-o", out] + list(flags)
    stamp = hashlib.sha256(open(cmd[2], "rb").read() + " ".join(cmd).encode()).hexdigest()
    with open(os.path.join(ROOT, ".lock-" + name), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not (os.path.exists(out) and os.path.exists(out + ".stamp") and open(out + ".stamp").read() == stamp):
            if _run(cmd, os.path.join(ROOT, name + ".log")) != 0:
                sys.stderr.write(open(os.path.join(ROOT, name + ".log")).read()[-4000:])
                sys.exit(2)
            with open(out + ".stamp", "w") as f:
                f.write(stamp)
    return out


def norm(ver):
    q = "/usr/include/x86_64-linux-gnu/qt%d" % ver
    return helper("norm%d" % ver, "norm.cpp", ["-std=c++17", "-fPIC", "-isystem", q, "-isystem", q + "/QtCore", "-lQt%dCore" % ver])
