#!/usr/bin/env python3
"""seedrun.py [--check] ID...: confirms planted changes in private copies of /repo (mount namespace) and optionally runs their property's check against them."""
import json, os, time, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = os.path.join(ROOT, "seeded")
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def ns(copy, cmd, timeout=900):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def one(id, check):
    d = os.path.join(V, id); w = tempfile.mkdtemp(prefix="seed-"); c = os.path.join(w, "repo"); out = {"id": id}
    try:
        subprocess.check_call(["cp", "-a", "/repo", c])
        dd = os.path.join(w, "demo"); shutil.copytree(d, dd)
        if not check or check == "both":
            r = ns(c, "git checkout -q -- . ; bash /opt/vp/build.sh >/dev/null; bash %s/demo.sh" % dd); out["demo_clean"] = r.returncode
            if r.returncode:
                out["clean_out"] = r.stdout[-400:]
        r = subprocess.run(["git", "-C", c, "apply", os.path.join(d, "patch.diff")], stderr=subprocess.PIPE, text=True)
        if r.returncode:
            out["apply"] = r.stderr; return out
        if not check or check == "both":
            r = ns(c, "bash /opt/vp/build.sh"); out["build"] = r.returncode
            if r.returncode: out["build_out"] = r.stdout[-600:]
            r = ns(c, "bash /opt/vp/test.sh %s/t.json" % w)
            t = json.load(open(w + "/t.json")); fails = BASE - set(t["passed"] if isinstance(t["passed"], list) else [k for k, v in t.get("tests", {}).items() if v])
            out["stable_failing"] = sorted(fails)[:5]; 
            r = ns(c, "bash %s/demo.sh" % dd); out["demo_patched"] = r.returncode; out["demo_out"] = r.stdout[-200:]
        if check:
            prop = json.load(open(d + "/meta.json"))["property"]
            for p in ([prop] if check != "all" else ["C%02d" % i for i in (*range(1, 20), 23)]):
                t0 = time.time(); r = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), p], env=dict(os.environ, VERIF_REPO=c, VERIF_EVIDENCE=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                out.setdefault("checks", {})[p] = (r.returncode, [l for l in r.stdout.splitlines()][-4:], round(time.time() - t0))
        return out
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]; check = ""
    if a and a[0].startswith("--"):
        check = {"--check": "own", "--both": "both", "--all": "all"}[a.pop(0)]
    import signal; signal.signal(signal.SIGTERM, lambda *_: sys.exit(1))
    ids = a or sorted(os.listdir(V))
    with ThreadPoolExecutor(1 if check else 4) as ex:
        for o in ex.map(lambda i: one(i, check), ids):
            print(json.dumps(o), flush=True)
