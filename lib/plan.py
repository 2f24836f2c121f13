"""Which analysis jobs decide which property, per tier."""
from configs import CONFIGS, BY_NAME, X64

ALL = [c.name for c in CONFIGS]
DIRS = ("dec", "enc")
ALTIVEC = [c.name for c in CONFIGS if c.backend == "altivec"]
MMX = [c.name for c in CONFIGS if c.backend == "mmx"]
SIMD = ["sse2", "avx2", "neon-aarch64"]
ONE_PER_BACKEND = ["default", "default-altsbox", "uint32", "mmx", "sse2", "sse2-altsbox", "ssse3", "avx2", "avx2-altsbox", "neon-aarch64", "uint64-ppc64be"]
SMALL = "0-24"
# groups of further packet lengths, sized to take about as long as one another
LONG = ["25-32,39-41", "47,48,49,63,64,65", "127,128,129", "183,184,185,188", "255", "256", "257"]
# where the single-packet functions themselves are the property: every length a transport packet can carry
EVERY = ["%d-%d" % (k, k + 7) for k in range(24, 192, 8)] + ["192,193,200"]


def bcost(M):
    return 1.5 + M * 0.11


def batch(cfg, d, M, n, **kw):
    return (cfg, "batch;dir=%s;M=%d;n=%d" % (d, M, n) + "".join(";%s=%s" % x for x in kw.items()), bcost(M) * (3 if "avx2" in cfg else 2 if "128" in cfg else 1))


def single(cfg, d, L, **kw):
    mx = max(int(x) for p in L.split(",") for x in p.split("-"))
    return (cfg, "single;dir=%s;L=%s" % (d, L) + "".join(";%s=%s" % x for x in kw.items()), 6 + mx * 0.15)


def singles(ctx, long=True, L=SMALL, **kw):
    """the single-packet interface: once per group of configurations whose code for it is identical"""
    out = []
    for c in ctx.single_reps:
        for d in DIRS:
            out.append(single(c, d, L if c == ctx.single_reps[0] or ctx.thorough else "0-9,15-17", **kw))
            if long and (c == ctx.single_reps[0] or ctx.thorough):
                for g in LONG if (ctx.thorough or long == 2) else LONG[:1] + LONG[3:4]:
                    out.append(single(c, d, g, **kw))
    return out


def batches(ctx, full=True, cfgs=None, **kw):
    """every configuration with a full batch at a small maximum, the main ones at every kind of maximum"""
    out = []
    for c in cfgs or ALL:
        if c not in ctx.cap:
            continue
        B = ctx.cap[c]
        for d in DIRS:
            out.append(batch(c, d, 16, B, **kw))
            if ctx.thorough:
                for M in (24, 40, 96, 184):
                    out.append(batch(c, d, M, B, **kw))
    if full and "default" in ctx.cap:
        for d in DIRS:
            for M in (range(0, 185, 8) if ctx.thorough else (0, 8, 24, 40, 88, 184)):
                out.append(batch("default", d, M, ctx.cap["default"], **kw))
            if not ctx.thorough:
                for c in ("sse2", "uint32"):
                    if c in ctx.cap:
                        out.append(batch(c, d, 184, ctx.cap[c], **kw))
    return out


def maxima(ctx):
    """every maximum length there can be, for the default configuration; a few with a partly filled batch"""
    if "default" not in ctx.cap:
        return []
    B = ctx.cap["default"]
    return [batch("default", d, M, n) for d in DIRS for M, n in [(M, B) for M in range(0, 185, 8)] + [(184, 5), (96, B // 2 + 1), (184, B - 1), (48, 1), (120, 17)]]


def fills(ctx, M=16, wide=False, every=False):
    """partly filled batches"""
    out = []
    for c in (ALL if ctx.thorough or wide else ONE_PER_BACKEND):
        if c not in ctx.cap:
            continue
        B = ctx.cap[c]
        ns = [0, 1, 2, 3, 7, B // 2 + 1, B - 1]
        if ctx.thorough or ((wide or every) and c == "default"):
            ns = list(range(B + 1)) if c == "default" else ns + [4, 5, 8, 9, B // 4, B // 4 + 1, B // 2, B - 2]
        elif c != "default":
            ns = [1, B - 1] if not wide else [0, 1, 5, B // 2 + 1, B - 1]
        for d in DIRS:
            for n in ns:
                out.append(batch(c, d, M, n))
    return out


RESIDUES = ["x" * 29 + format(r, "03b") for r in range(1, 8)]
TOPBITS = ["0" * (31 - k) + "1" + "x" * (k - 3) + "000" for k in range(8, 32)]
FINITE = [format(v, "032b") for v in range(192, 256, 8)]


def patterns(ctx):
    """every maximum length the contract excludes: not a multiple of 8, or above 184"""
    out = []
    for c in (ALL if ctx.thorough else ["default", "uint32", "sse2", "avx2", "mmx", "neon-aarch64", "uint64-ppc64be"]):
        if c in ctx.cap:
            pats = RESIDUES + TOPBITS + FINITE if c == "default" or ctx.thorough else [RESIDUES[3], RESIDUES[0], RESIDUES[6], TOPBITS[0], TOPBITS[8], TOPBITS[23], FINITE[0]]
            for d in DIRS:
                for p in pats:
                    out.append((c, "batch;dir=%s;M=184;n=2;Mbits=%s" % (d, p), 0.6))
    return out


def prior(ctx):
    out = []
    for c in (ALL if ctx.thorough else ONE_PER_BACKEND):
        if c in ctx.cap:
            for d in DIRS:
                out.append(batch(c, d, 16, 3, prior=5))
                if c == "default":
                    out.append(batch(c, d, 16, 3, prior=5, pdir="enc" if d == "dec" else "dec"))
    return out


def allocs(ctx):
    out = [(c, "alloc;api=single;fail=%d" % f, 3) for c in ctx.single_reps for f in (0, 1)]
    return out + [(c, "alloc;api=bs;fail=%d" % f, 5) for c in ALL for f in (0, 1)]


def deps(ctx):
    """dependence of single-packet output on its input, at long lengths too"""
    out = []
    main = ctx.single_reps[0] if ctx.single_reps else None
    for c in ctx.single_reps:
        for d in DIRS:
            if c != main and not ctx.thorough:
                out.append((c, "deps;dir=%s;L=8-40,248-264,1032,4099" % d, 1)); continue
            out.append((c, "deps;dir=%s;L=0-400" % d, 5)); out.append((c, "deps;dir=%s;L=401-600" % d, 6))
            out.append((c, "deps;dir=%s;consts=%d" % (d, 70000 if ctx.thorough else 17000), 10))
            out.append((c, "deps;dir=%s;L=%s" % (d, ",".join(str(2 ** p + k) for p in range(9, 15) for k in (-1, 0, 1, 8, 9))), 10))
            for L in (32768, 32775, 65535, 65544, 100003) + ((131072, 262147, 524304, 1048584) if ctx.thorough else ()):
                out.append((c, "deps;dir=%s;L=%d" % (d, L), L / 17000.0))
    return out


def hists(ctx):
    """many histories of key settings, ending with the same control word"""
    out = []
    for c in ctx.single_reps:
        out += [(c, "hist;api=single;dir=%s;L=17" % d, 6) for d in DIRS]
    for c in ALL:
        if c in ctx.cap:
            out += [(c, "hist;api=bs;dir=%s;L=17" % d, 12) for d in (DIRS if ctx.thorough or c == "default" else DIRS[:1])]
    return out


def module(ctx, kind):
    return [(c, kind, 0.1) for c in ALL]


def plan(prop, ctx):
    J = []
    if prop == "C01":
        J = singles(ctx, long=2) + deps(ctx) + module(ctx, "lens")
    elif prop == "C02":
        J = singles(ctx, long=2) + deps(ctx) + module(ctx, "lens")
    elif prop == "C03":
        J = batches(ctx) + fills(ctx) + singles(ctx, long=False)
    elif prop == "C04":
        J = batches(ctx) + fills(ctx) + prior(ctx) + module(ctx, "module")
    elif prop == "C05":
        J = batches(ctx) + singles(ctx, long=False) + deps(ctx)
    elif prop == "C06":
        J = batches(ctx) + fills(ctx, M=8) + singles(ctx) + allocs(ctx) + deps(ctx)
    elif prop == "C07":
        J = batches(ctx, full=ctx.thorough) + prior(ctx) + singles(ctx, long=ctx.thorough) + allocs(ctx) + module(ctx, "module")
    elif prop == "C08":
        J = batches(ctx, full=ctx.thorough, old=1) + singles(ctx, long=ctx.thorough, old=1) + hists(ctx)
    elif prop == "C09":
        J = allocs(ctx)
    elif prop == "C10":
        J = module(ctx, "lens") + batches(ctx) + singles(ctx, long=2) + deps(ctx)
    elif prop == "C11":
        for c in MMX:
            if c in ctx.cap:
                for d in DIRS:
                    for M in (range(0, 185, 8) if ctx.thorough else (0, 8, 16, 40, 184)):
                        for n in ((0, 1, 3, 64) if M <= 16 or ctx.thorough else (0, 64)):
                            J.append(batch(c, d, M, n))
                J += [(c, "alloc;api=bs;fail=%d" % f, 5) for f in (0, 1)] + [(c, "alloc;api=single;fail=0", 3)] + [single(c, d, "0-9,16,17") for d in DIRS]
        J += module(ctx, "graph")
    elif prop == "C12":
        J = module(ctx, "graph") + module(ctx, "module") + [(c, "size", 0.1) for c in ALL]
        for c in ALL:
            if c in ctx.cap:
                J += [batch(c, d, 8, n) for d in DIRS for n in (ctx.cap[c], ctx.cap[c] + 1) if n == ctx.cap[c] or d == "dec" or c == "default" or ctx.thorough]
    elif prop == "C13":
        J = batches(ctx) + singles(ctx, long=False)
        for c in ALL:
            if c in ctx.cap:
                J += [batch(c, d, 40, ctx.cap[c]) for d in DIRS]
    elif prop == "C14":
        J = batches(ctx) + singles(ctx) + allocs(ctx)
    elif prop == "C15":
        J = batches(ctx, full=ctx.thorough) + fills(ctx, M=8, wide=True)
    elif prop == "C16":
        J = [(c, j + ";dl=1", w) for c, j, w in batches(ctx) + singles(ctx) + allocs(ctx)] + module(ctx, "lens") + deps(ctx)
    elif prop == "C17":
        J = batches(ctx) + fills(ctx, M=8) + singles(ctx) + allocs(ctx) + module(ctx, "graph")
    elif prop == "C18":
        J = patterns(ctx)
        for c in ALL:
            if c in ctx.cap:
                for d in DIRS:
                    Ms = range(0, 185, 8) if c == "default" or ctx.thorough else (0, 8, 184) if c in ONE_PER_BACKEND else (8,)
                    J += [batch(c, d, M, 0) for M in Ms]
    elif prop == "C19":
        J = batches(ctx) + fills(ctx, M=8) + singles(ctx) + allocs(ctx)
    elif prop == "C23":
        for c in ALTIVEC + ["default"]:
            if c in ctx.cap:
                B = ctx.cap[c]
                for d in DIRS:
                    for M in (range(0, 185, 8) if ctx.thorough else (0, 8, 24, 40, 184)):
                        J.append(batch(c, d, M, B))
                    for n in ([1, 2, 3, B // 2, B // 2 + 1, B - 1] if not ctx.thorough else range(B)):
                        J.append(batch(c, d, 16, n))
                    J.append(batch(c, d, 16, B))
                    J.append(single(c, d, "0-9,15-17,23-25"))
    return J


def more(prop, ctx):
    """the second stage"""
    if prop in ("C01", "C02") and ctx.single_reps:
        return [single(ctx.single_reps[0], d, g) for d in DIRS for g in EVERY]
    if prop == "C03":
        return maxima(ctx) + fills(ctx, every=True)
    if prop == "C04":
        return fills(ctx, every=True)
    return []


MIXED = [0, 7, 8, 9, 15, 16, 17, 20, 23, 24, 31, 32, 33, 40, 47, 100, 183, 184, 188, 200, 255, 256, 300, 1, 65536 + 40]


def fallback(r):
    """a batch that could not be analysed for all lengths at once: one fixed mix of lengths instead"""
    if r.kind != "batch" or r.opts.get("L"):
        return []
    pat = r.opts.get("Mbits")
    if pat:   # single maxima out of the excluded family instead
        return [(r.cfg, "batch;dir=%s;M=184;n=2;Mbits=%s" % (r.opts["dir"], pat.replace("x", x)), 0.6) for x in "01"] if "x" in pat else []
    M, n = int(r.opts["M"]), int(r.opts["n"])
    if M > 40:
        return []
    Ls = [x for x in MIXED if x < 400] if M > 8 else [0, 7, 8, 9, 15, 16, 20, 200, 256]
    ex = "".join(";%s=%s" % (k, v) for k, v in r.opts.items() if k in ("old", "prior", "pdir"))
    out = [(r.cfg, "batch;dir=%s;M=%d;n=%d;L=%s%s" % (r.opts["dir"], M, n, ",".join(map(str, (Ls[i:] + Ls[:i]))), ex), 3) for i in (0,)]
    return out
