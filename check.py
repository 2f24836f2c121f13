#!/usr/bin/env python3
"""check.py Cxx      decides one property on the current tree of /repo (VERIF_TIER: quick or thorough)
check.py --setup    builds the analyser"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import frontend, runner, plan, judge, iface, evidence   # noqa: E402
from configs import CONFIGS, BY_NAME                    # noqa: E402
from frontend import Broken, VERIF                      # noqa: E402


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.thorough = prop, tier, tier == "thorough"
        self.t0 = time.time()
        self.deadline = self.t0 + float(os.environ.get("VERIF_DEADLINE", "780" if tier != "thorough" else "840"))
        self.results, self.note = [], {}

    def broken(self, why):
        raise Broken(why)

    def more(self, jobs):
        r = runner.run_jobs(self.exe, self.modules, jobs, self.deadline)
        self.results += r
        return r


def single_groups(ctx):
    """groups of configurations whose single-packet code is identical (same IR up to debug info and names of files)"""
    api = ["dvbcsa_encrypt", "dvbcsa_decrypt", "dvbcsa_key_set", "dvbcsa_key_alloc", "dvbcsa_key_free"]

    def digest(n):
        cmd = ["llvm-extract-18" if shutil.which("llvm-extract-18") else "llvm-extract", "-recursive", "-S", "-o", "-"] + ["-func=" + f for f in api] + [ctx.modules[n]]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            return n
        r2 = subprocess.run([frontend.OPT, "-passes=globaldce", "-strip-debug", "-S", "-o", "-"], input=r.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r2.returncode:
            return n
        t = re.sub(rb"(?m)^(; ModuleID|source_filename|target triple|target datalayout|declare |!llvm\.|attributes ).*$", b"", r2.stdout)
        t = re.sub(rb" #\d+", b"", t)
        t = re.sub(rb"(?m)^!\d+ = !\{!\"clang version.*$", b"", t)
        c = BY_NAME[n]
        return hashlib.sha256(t + ("%d%s" % (c.long, c.big)).encode()).hexdigest()
    from concurrent.futures import ThreadPoolExecutor
    names = [c.name for c in CONFIGS if c.name in ctx.modules]
    with ThreadPoolExecutor(8) as ex:
        dg = dict(zip(names, ex.map(digest, names)))
    reps, of = {}, {}
    for n in names:
        k = (BY_NAME[n].target, dg[n])
        reps.setdefault(k, n); of[n] = reps[k]
    ctx.rep_of = of
    ctx.single_reps = [n for n in names if of[n] == n]


def selftest(ctx):
    """the width rules must fire on their positive examples and stay silent on the negative ones"""
    for name in ("pos", "neg"):
        bc = os.path.join(ctx.work, "lens_%s.bc" % name); src = os.path.join(VERIF, "selftest", "lens_%s.c" % name)
        frontend.run([frontend.CLANG, "--target=x86_64-unknown-linux-gnu", "-nostdlibinc", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-emit-llvm", "-w", "-c", src, "-o", bc], "self-test")
        frontend.run([frontend.OPT, "-passes=" + frontend.PASSES, bc, "-o", bc + "2"], "self-test")
        d = json.loads(subprocess.run([ctx.exe, bc + "2", "lens"], stdout=subprocess.PIPE, text=True).stdout)
        got = {(f["rule"], int(re.search(r":(\d+)", f["where"]).group(1))) for f in d["found"]}
        want = set()
        if name == "pos":
            for i, l in enumerate(open(src), 1):
                m = re.search(r"/\* (\w+) \*/\s*$", l)
                if m:
                    want.add((m.group(1), i))
        if got != want:
            raise Broken("self-test of the width rules: expected %s, got %s" % (sorted(want), sorted(got)))
        ctx.note["selftest_" + name] = len(want) if name == "pos" else d["n"]["sites"]


def known():
    """entries 'known: property=Cxx key=<finding key>' suppress exactly that finding; 'fixed:' entries suppress nothing"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) key=(.*)$", l.strip())
            if m:
                out.setdefault(m.group(1), set()).add(m.group(2))
    return out


def analyse(prop, tier):
    ctx = Ctx(prop, tier)
    ctx.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        ctx.exe = runner.engine()
        ctx.modules, ctx.unbuilt = frontend.build(CONFIGS, ctx.work)
        if "default" not in ctx.modules:
            raise Broken("the library does not compile: " + ctx.unbuilt.get("default", "")[-2000:])
        single_groups(ctx)
        ctx.results += runner.run_jobs(ctx.exe, ctx.modules, [(c, "size", 0.1) for c in ctx.modules] + [("default", "self", 0.1)], ctx.deadline)
        ctx.cap = {r.cfg: r.n["value"] for r in ctx.results if r.kind == "size" and r.status == "ok" and r.n.get("constant") and 0 < r.n["value"] <= 4096}
        if prop in ("C10", "C16"):
            selftest(ctx)
        # in stages: what already refutes the property is reported without going on to the longer analyses
        kn = known().get(prop, set())
        for jobs in (plan.plan(prop, ctx), plan.more(prop, ctx)):
            if jobs:
                ctx.results += runner.run_jobs(ctx.exe, ctx.modules, jobs, ctx.deadline, timeout=300 if tier != "thorough" else 600, fallback=plan.fallback)
            seen, rs = set(), []
            for r in ctx.results:
                if (r.cfg, r.job) not in seen:
                    seen.add((r.cfg, r.job)); rs.append(r)
            ctx.results = rs
            found = iface.c12(ctx) if prop == "C12" else judge.RULES[prop](ctx)
            if any(f.key() not in kn for f in found):
                break
        uniq = {}
        for f in found:
            uniq.setdefault(f.key(), f)
        return ctx, list(uniq.values())
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)


def main():
    if sys.argv[1:] == ["--setup"]:
        print("analyser:", runner.engine()); return 0
    prop, tier = sys.argv[1], os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        ctx, found = analyse(prop, tier)
    except Broken as e:
        print("ANALYSIS-ERROR property=%s %s" % (prop, e)); return 2
    kn = known().get(prop, set())
    new = [f for f in found if f.key() not in kn]
    old = [f for f in found if f.key() in kn]
    ev = evidence.write(ctx, new, old)
    for f in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, f.line()))
    for l in evidence.summary(ev):
        print(l)
    if new:
        d = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence"); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + ".violation.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "how_to_repeat": "python3 check.py %s   (analysis jobs: build/*/vengine MODULE JOB)" % prop, "findings": [x.dict() for x in new]}, f, indent=1)
        for f in new[:12]:
            print("  " + f.line()[:600])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if not ev["coverage"]["decided_jobs"]:
        print("ANALYSIS-ERROR property=%s nothing could be analysed: %s" % (prop, "; ".join(sorted({r.why for r in ctx.results if r.why}))[:600])); return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
