"""C12: the public interface of every configuration."""
import os, re, subprocess, tempfile
import frontend
from frontend import REPO, CLANG, VERIF
from configs import CONFIGS, BY_NAME
from judge import Finding, results, vals, events, stopped, stop_finding

PROTOS = {   # the documented interface
    "dvbcsa_key_alloc": "struct dvbcsa_key_s *(void)",
    "dvbcsa_key_free": "void (struct dvbcsa_key_s *)",
    "dvbcsa_key_set": "void (const unsigned char *, struct dvbcsa_key_s *)",
    "dvbcsa_decrypt": "void (const struct dvbcsa_key_s *, unsigned char *, unsigned int)",
    "dvbcsa_encrypt": "void (const struct dvbcsa_key_s *, unsigned char *, unsigned int)",
    "dvbcsa_bs_key_alloc": "struct dvbcsa_bs_key_s *(void)",
    "dvbcsa_bs_key_free": "void (struct dvbcsa_bs_key_s *)",
    "dvbcsa_bs_key_set": "void (const unsigned char *, struct dvbcsa_bs_key_s *)",
    "dvbcsa_bs_batch_size": "unsigned int (void)",
    "dvbcsa_bs_decrypt": "void (const struct dvbcsa_bs_key_s *, const struct dvbcsa_bs_batch_s *, unsigned int)",
    "dvbcsa_bs_encrypt": "void (const struct dvbcsa_bs_key_s *, const struct dvbcsa_bs_batch_s *, unsigned int)",
}
# IR types of the definitions, where "i" is int and "p" a pointer
IRT = {n: ("ptr" if p.startswith("struct") else "i32" if p.startswith("unsigned") else "void",
           [("ptr" if "*" in a else "i32") for a in re.search(r"\((.*)\)", p).group(1).split(",") if a.strip() != "void"]) for n, p in PROTOS.items()}
RUNTIME = re.compile(r"^(__u?(div|mod|divmod|mul|ash[lr]|lshr|clz|ctz|popcount|bswap)[a-z]*[0-9]+|__aeabi_.*|__stack_chk_(fail|guard)|_GLOBAL_OFFSET_TABLE_|__assert_fail|_mm_malloc|_mm_free)$")


def libc_names():
    for p in ("/lib/x86_64-linux-gnu/libc.so.6", "/usr/lib/x86_64-linux-gnu/libc.so.6", "/lib64/libc.so.6"):
        if os.path.exists(p):
            r = subprocess.run(["nm", "-D", "--defined-only", p], stdout=subprocess.PIPE, text=True)
            return {l.split()[-1].split("@")[0] for l in r.stdout.splitlines() if l.strip()}
    return None


def c_test():
    s = "#include <dvbcsa/dvbcsa.h>\n"
    s += "typedef char want_cw[sizeof(dvbcsa_cw_t) == 8 ? 1 : -1];\ntypedef char want_max[DVBCSA_BS_MAX_PACKET_LEN == 184 ? 1 : -1];\n"
    s += "unsigned char *probe_data(struct dvbcsa_bs_batch_s *b);\nunsigned char *probe_data(struct dvbcsa_bs_batch_s *b) { unsigned int *l = &b->len; unsigned char **d = &b->data; *l = 1; return *d; }\n"
    s += "dvbcsa_key_t *a_key; dvbcsa_bs_key_t *a_bs_key;\n"
    for i, (n, p) in enumerate(PROTOS.items()):
        ret, args = p.split("(", 1)
        s += "%s(*want_%d)(%s = %s;\n" % (ret, i, args, n)
    return s


def compile_check(cmd, src, suffix):
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "t" + suffix); open(f, "w").write(src)
        r = subprocess.run(cmd + [f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=d)
        return r


def c12(ctx):
    out = []; nheader = 0
    inc = ["-I", os.path.join(REPO, "src"), "-isystem", os.path.join(VERIF, "stubs")]
    targets = sorted({c.target for c in CONFIGS})
    for t in targets:
        for lang, std, suf in (("c", "gnu89", ".c"), ("c", "c99", ".c"), ("c", "c11", ".c"), ("c++", "c++98", ".cpp"), ("c++", "c++11", ".cpp"), ("c++", "c++17", ".cpp")):
            r = compile_check([CLANG, "--target=" + t, "-nostdlibinc", "-x", lang, "-std=" + std, "-Werror=incompatible-function-pointer-types", "-Werror=incompatible-pointer-types", "-Werror=implicit-int", "-Werror=implicit-function-declaration", "-S", "-emit-llvm", "-O0", "-o", "-"] + inc, c_test(), suf)
            nheader += 1
            if r.returncode:
                err = next((l for l in r.stderr.splitlines() if "error:" in l), r.stderr[:200])
                out.append(Finding("header", "the public header does not give the documented interface to %s on %s: %s" % (std, t, re.sub(r"^\S+?:(\d+:\d+:)?", "", err).strip()), err.split(" ")[0]))
                continue
            for n in PROTOS:
                if not re.search(r"declare [^\n]*@%s\(" % n, r.stdout):
                    out.append(Finding("linkage", "%s does not have C linkage when the header is used from %s" % (n, std)))
    # the real compilers and headers
    for cc, suf in (("gcc", ".c"), ("g++", ".cpp")):
        r = compile_check([cc, "-fsyntax-only", "-I", os.path.join(REPO, "src")], c_test(), suf)
        nheader += 1
        if r.returncode and "error" in r.stderr:
            out.append(Finding("header", "the public header cannot be used with %s: %s" % (cc, r.stderr.splitlines()[0][:200])))
    libc = libc_names()
    for r in results(ctx, "graph"):
        g, und = r.d["facts"]["graph"], r.d["facts"]["undefined"]
        al = r.d["facts"]["aliases"]
        for n in PROTOS:
            if n in al:
                continue
            if n not in g:
                out.append(Finding("provided", "%s is not defined" % n, "", "", r))
            elif not g[n]["external"] or g[n]["hidden"]:
                out.append(Finding("provided", "%s is not visible outside the library" % n, "", "", r))
        for u in und:
            if libc is not None and u not in libc and not RUNTIME.match(u):
                out.append(Finding("self-contained", "the library refers to '%s', which neither it nor the C library defines" % u, "", "", r))
    for r in results(ctx, "module"):
        for f in r.d.get("functions", []):
            if f["name"] in IRT and f["defined"]:
                m = re.match(r"(\w+) \((.*)\)$", f["proto"])
                if m:
                    have = (m.group(1), [a.strip().split(" ")[0] for a in m.group(2).split(",") if a.strip()])
                    if have != IRT[f["name"]]:
                        out.append(Finding("prototype", "%s is defined as '%s'" % (f["name"], f["proto"]), "%s:%d" % (os.path.basename(f["file"]), f["line"]), "", r))
    # definitions must agree with the header even in files that do not include it
    size = {}
    for r in results(ctx, "size"):
        if r.status != "ok":
            continue
        if not r.n.get("constant") or not 0 < r.n.get("value", 0) < 1 << 31:
            out.append(Finding("batch-size", "dvbcsa_bs_batch_size does not give a positive constant", "", "", r))
        size[r.cfg] = r.n.get("value")
    for r in results(ctx, "batch"):
        B, n = size.get(r.cfg), int(r.opts["n"])
        if not B:
            continue
        if n == B:
            mem = events(r, ("oob-read", "oob-write"))
            if mem:
                out.append(Finding("batch-size", "a batch of %d packets, the reported size, overruns %s" % (B, mem[0]["text"]), mem[0]["where"], "", r))
            if r.status == "ok" and r.d.get("unwritten") and not set(range(B)) <= set(r.d["unwritten"]):
                out.append(Finding("batch-size", "of %d packets, the reported size, packet %d and others are not processed" % (B, r.d["unwritten"][0]), "", "", r))
        elif n == B + 1:
            if r.status == "ok" and not r.diffs and not events(r, ("oob-read", "oob-write", "uninit-branch", "uninit-addr")) and r.n.get("compared") and r.n.get("proved") == r.n.get("compared") and not r.d.get("unwritten"):
                out.append(Finding("batch-size", "one call processes more packets (%d) than the reported size %d" % (n, B), "", "", r))
    for c, why in ctx.unbuilt.items():
        cfg = BY_NAME[c]
        if cfg.built and cfg.target.startswith("x86_64") and not frontend.gcc_builds(cfg, ctx.work):
            out.append(Finding("provided", "configuration %s does not compile: %s" % (c, next((l for l in why.splitlines() if "error:" in l), why[:200])), ""))
    ctx.note["header_compilations"] = nheader
    return out
