"""Builds the analyser and the modules, and runs analysis jobs in parallel."""
import hashlib, json, os, resource, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed
import frontend
from frontend import Broken

VERIF = frontend.VERIF
ENGDIR = os.path.join(VERIF, "engine")


def engine():
    """path of the analyser, (re)built from /verif/engine when its sources changed"""
    h = hashlib.sha256()
    for f in sorted(os.listdir(ENGDIR)):
        if f.endswith((".cpp", ".h", ".sh")):
            h.update(f.encode()); h.update(open(os.path.join(ENGDIR, f), "rb").read())
    out = os.path.join(VERIF, "build", h.hexdigest()[:16])
    exe = os.path.join(out, "vengine")
    if os.path.exists(exe):
        return exe
    base = os.path.join(VERIF, "build")
    try:
        os.makedirs(base, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="eng", dir=base)
    except OSError:
        base = tempfile.mkdtemp(prefix="veng"); out = os.path.join(base, "e"); tmp = tempfile.mkdtemp(dir=base); exe = os.path.join(out, "vengine")
    r = subprocess.run([os.path.join(ENGDIR, "build.sh"), tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(os.path.join(tmp, "vengine")):
        raise Broken("building the analyser failed:\n" + r.stdout[-3000:])
    try:
        os.rename(tmp, out)
    except OSError:
        if not os.path.exists(exe):
            return os.path.join(tmp, "vengine")
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
    want = 1 << 30
    if hard != resource.RLIM_INFINITY:
        want = min(want, hard)
    resource.setrlimit(resource.RLIMIT_STACK, (want, hard))


def memory(job):
    """rough memory need of a job, in GB"""
    kind = job.split(";")[0]
    o = dict(kv.split("=", 1) if "=" in kv else (kv, "1") for kv in job.split(";")[1:])
    if kind == "single" or kind == "round":
        return 0.3 + 0.016 * max(int(x) for p in o["L"].split(",") for x in p.split("-"))
    if kind == "batch":
        return 0.3 + 0.012 * int(o["M"]) * (2 if int(o["n"]) >= 128 else 1)
    return 1.0


class Room:
    """keeps the sum of the estimates of the running jobs below the memory there is"""
    def __init__(self):
        try:
            kb = int([l for l in open("/proc/meminfo") if l.startswith("MemAvailable")][0].split()[1])
        except (OSError, IndexError):
            kb = 16 << 20
        self.cap, self.used, self.cv = 0.8 * kb / (1 << 20), 0.0, threading.Condition()

    def take(self, w):
        with self.cv:
            while self.used > 0 and self.used + w > self.cap:
                self.cv.wait()
            self.used += w

    def give(self, w):
        with self.cv:
            self.used -= w
            self.cv.notify_all()


class Result:
    """one job's outcome; status is ok, aborted, stop, unsupported, timeout, crash or skipped"""
    def __init__(self, cfg, job, d):
        self.cfg, self.job = cfg, job
        self.status = d.get("status", "crash"); self.why = d.get("why", "")
        self.n = d.get("n", {}); self.diffs = d.get("diffs", []); self.events = d.get("events", [])
        self.d = d
        self.opts = dict(kv.split("=", 1) if "=" in kv else (kv, "1") for kv in job.split(";")[1:])
        self.kind = job.split(";")[0]

    def decided(self):
        return self.status in ("ok", "aborted", "stop")

    def name(self):
        return "%s [%s]" % (self.cfg, self.job)


def run_one(exe, module, cfg, job, timeout, cache=None):
    key = None
    if cache:
        h = hashlib.sha256((os.path.basename(os.path.dirname(exe)) + job).encode())
        h.update(open(module, "rb").read())
        key = os.path.join(cache, h.hexdigest())
        if os.path.exists(key):
            return Result(cfg, job, json.load(open(key)))
    try:
        r = subprocess.run([exe, module, job], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return Result(cfg, job, {"status": "timeout", "why": "no answer in %d s" % timeout})
    try:
        d = json.loads(r.stdout.strip().split("\n")[-1])
    except ValueError:
        return Result(cfg, job, {"status": "crash", "why": "ended with %s %s" % (r.returncode, r.stderr[-300:])})
    if d["status"] == "broken" and "bad_alloc" in d.get("why", ""):
        d["status"] = "unsupported"; d["why"] = "memory limit"
    if d["status"] == "broken":
        d["status"] = "crash"
    if key:
        with open(key + ".tmp%d-%d" % (os.getpid(), threading.get_ident()), "w") as f:
            json.dump(d, f)
        os.rename(key + ".tmp%d-%d" % (os.getpid(), threading.get_ident()), key)
    return Result(cfg, job, d)


def run_jobs(exe, modules, jobs, deadline, workers=None, timeout=400, fallback=None):
    """jobs: list of (config, job, cost). Longest first. fallback(result) -> further jobs."""
    workers = workers or int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 8)
    cache = os.environ.get("VERIF_CACHE")
    if cache:
        os.makedirs(cache, exist_ok=True)
    seen, todo = set(), []
    for j in sorted(jobs, key=lambda x: -x[2]):
        if j[:2] not in seen and j[0] in modules:
            seen.add(j[:2]); todo.append(j)
    res = []

    room = Room()

    def go(j):
        w = memory(j[1])
        room.take(w)
        try:
            left = deadline - time.time()
            if left < 5:
                return Result(j[0], j[1], {"status": "skipped", "why": "time budget of the check used up"})
            r = run_one(exe, modules[j[0]], j[0], j[1], min(timeout, left), cache)
            if r.status == "crash" and "ended with -9" in r.why and deadline - time.time() > 60:   # ended for lack of memory
                r = run_one(exe, modules[j[0]], j[0], j[1], min(timeout, deadline - time.time()), cache)
            return r
        finally:
            room.give(w)
    with ThreadPoolExecutor(workers) as ex:
        pend = {ex.submit(go, j) for j in todo}
        while pend:
            for f in as_completed(list(pend)):
                pend.discard(f)
                r = f.result(); res.append(r)
                if fallback and r.status in ("unsupported", "timeout", "crash"):
                    for j in fallback(r):
                        if j[:2] not in seen:
                            seen.add(j[:2]); pend.add(ex.submit(go, j))
    return res
