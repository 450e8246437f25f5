"""A pool of driver processes; run(jobs) returns results in order."""
import json, os, subprocess, threading, queue
from vbuild import clean_env

QT5 = "/usr/include/x86_64-linux-gnu/qt5"
QT6 = "/usr/include/x86_64-linux-gnu/qt6"
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


def qt_args(ver, std="c++17", mods=("QtCore",), extra=()):
    base = QT5 if ver == 5 else QT6
    a = ["-std=" + std, "-fPIC", "-isystem", base]
    for m in mods:
        a += ["-isystem", base + "/" + m]
    return a + list(extra)


def clazy_args(*plugin_args):
    a = ["-Xclang", "-add-plugin", "-Xclang", "clazy"]
    for p in plugin_args:
        a += ["-Xclang", "-plugin-arg-clazy", "-Xclang", p]
    return a


class Pool:
    def __init__(self, build, n=NPROC, plugin=None, env=None):
        self.build = build
        self.env = env
        self.n = n
        self.plugin = plugin or build.plugin
        self.runs = 0

    def run(self, jobs, progress=None):
        jobs = list(jobs)
        res = [None] * len(jobs)
        q = queue.Queue()
        # Deal small batches, to balance the load.
        for i in range(len(jobs)):
            q.put(i)
        errs = []

        def worker():
            p = subprocess.Popen([self.build.drv, self.plugin], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, env=clean_env(self.env), cwd="/")
            try:
                while True:
                    try:
                        i = q.get_nowait()
                    except queue.Empty:
                        break
                    j = dict(jobs[i])
                    j["id"] = i
                    p.stdin.write((json.dumps(j) + "\n").encode())
                    p.stdin.flush()
                    line = p.stdout.readline()
                    if not line:
                        errs.append("driver died on job %d" % i)
                        return
                    res[i] = json.loads(line)
            finally:
                try:
                    p.stdin.close()
                except OSError:
                    pass
                p.wait()

        ts = [threading.Thread(target=worker) for _ in range(min(self.n, max(1, len(jobs))))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise RuntimeError(errs[0])
        self.runs += len(jobs)
        return res


def clazy_diags(res):
    """The clazy diagnostics of one result."""
    return [d for d in res.get("diags", []) if "[-Wclazy-" in d["msg"]]


def check_of(d):
    m = d["msg"]
    i = m.rfind("[-Wclazy-")
    return m[i + 9:].split("]")[0].split(",")[0] if i >= 0 else None
