"""Source -> LLVM IR for every configuration (clang-18, nothing is executed)."""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "clang-18" if os.path.exists("/usr/bin/clang-18") else "clang"
LINK = "llvm-link-18" if os.path.exists("/usr/bin/llvm-link-18") else "llvm-link"
OPT = "opt-18" if os.path.exists("/usr/bin/opt-18") else "opt"


class Broken(Exception):
    """the analysis could not be carried out (error exit, never a verdict)"""


def sources(use32):
    """the .c files of the library, from src/Makefile.am"""
    txt = open(os.path.join(REPO, "src/Makefile.am")).read().replace("\\\n", " ")
    out, stack = [], []
    for line in txt.splitlines():
        s = line.split("#")[0].strip()
        m = re.match(r"if\s+(!?)\s*(\w+)$", s)
        if m:
            if m.group(2) == "TRANSPOSE_32":
                stack.append(use32 != bool(m.group(1)))
            else:
                stack.append(True)
            continue
        if s.startswith("else"):
            stack[-1] = not stack[-1]
            continue
        if s.startswith("endif"):
            stack.pop()
            continue
        m = re.match(r"libdvbcsa_la_SOURCES\s*\+?=\s*(.*)", s)
        if m and all(stack):
            out += [f for f in m.group(1).split() if f.endswith(".c")]
    if len(out) < 5:
        raise Broken("src/Makefile.am: library source list not understood: %r" % out)
    return out


def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise Broken("%s failed: %s\n%s" % (what, " ".join(cmd), r.stderr[-3000:]))
    return r.stdout


def base_flags(cfg, cdir):
    return ["--target=" + cfg.target, "-nostdlibinc", "-D_XOPEN_SOURCE=600",
            "-isystem", os.path.join(VERIF, "stubs"), "-idirafter", "/usr/include",
            "-idirafter", "/usr/include/x86_64-linux-gnu", "-I", cdir,
            "-I", os.path.join(REPO, "src"), "-w", "-std=gnu11"] + cfg.flags


def prepare(cfg, work):
    cdir = os.path.join(work, cfg.name)
    os.makedirs(cdir, exist_ok=True)
    with open(os.path.join(cdir, "config.h"), "w") as f:
        for k, v in cfg.defines().items():
            f.write("#define %s %s\n" % (k, v))
    return cdir


def compile_one(cfg, cdir, src):
    bc = os.path.join(cdir, os.path.basename(src) + ".bc")
    run([CLANG] + base_flags(cfg, cdir) + ["-O1", "-Xclang", "-disable-llvm-passes", "-g", "-emit-llvm",
        "-fno-vectorize", "-fno-slp-vectorize", "-c", src, "-o", bc], "compiling %s for %s" % (src, cfg.name))
    return bc


PASSES = ("always-inline,function(mergereturn,sroa,early-cse,simplifycfg,sroa,early-cse,"
          "mergereturn,loop-simplify,lcssa),globaldce")


def link(cfg, cdir, bcs):
    raw = os.path.join(cdir, "raw.bc")
    out = os.path.join(cdir, "lib.bc")
    run([LINK, "-o", raw] + bcs, "linking " + cfg.name)
    run([OPT, "-passes=" + PASSES, raw, "-o", out], "normalising " + cfg.name)
    return out


def build(cfgs, work, jobs=8):
    """({config name: path of the linked, normalised module}, {config name: why it could not be built})"""
    tasks, bad, by = [], {}, {}
    probe = os.path.join(VERIF, "lib", "probe.c")
    for c in cfgs:
        cdir = prepare(c, work)
        for s in sources(c.backend == "uint32"):
            tasks.append((c, cdir, os.path.join(REPO, "src", s)))
        tasks.append((c, cdir, probe))

    def comp(t):
        try:
            return t[0].name, compile_one(*t), None
        except Broken as e:
            return t[0].name, None, str(e)

    def lk(c):
        try:
            return c.name, link(c, os.path.join(work, c.name), by[c.name]), None
        except Broken as e:
            return c.name, None, str(e)
    with ThreadPoolExecutor(jobs) as ex:
        for n, b, err in ex.map(comp, tasks):
            if err:
                bad.setdefault(n, err)
            else:
                by.setdefault(n, []).append(b)
        out = {}
        for n, o, err in ex.map(lk, [c for c in cfgs if c.name not in bad]):
            if err:
                bad[n] = err
            else:
                out[n] = o
    return out, bad


def gcc_builds(cfg, work):
    cdir = os.path.join(work, cfg.name)
    gcc = {"powerpc64": "powerpc64-linux-gnu-gcc"}.get(cfg.target.split("-")[0], "gcc")
    if not shutil.which(gcc) or (gcc == "gcc" and not cfg.x86):
        return True                      # no second opinion: say nothing
    for s in sources(cfg.backend == "uint32"):
        r = subprocess.run([gcc, "-fsyntax-only", "-D_XOPEN_SOURCE=600", "-I", cdir, "-I", os.path.join(REPO, "src"), "-w"] + [f for f in cfg.flags if f.startswith("-m")] + [os.path.join(REPO, "src", s)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            return False
    return True


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(__file__))
    import configs
    print(build([c for c in configs.CONFIGS if len(sys.argv) < 3 or c.name in sys.argv[2:]], sys.argv[1]))
