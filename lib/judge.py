"""From analysis results to verdicts, one rule set per property.

A violation is reported only for a confirmed construct: a value that differs from what it has to be at exhibited inputs,
or an operation that breaks a rule under a feasible condition. What could not be decided is counted and reported as such.
"""
import frontend
from configs import BY_NAME


class Finding:
    def __init__(self, rule, text, where="", witness="", job=None, extra=None):
        self.rule, self.text, self.where, self.witness = rule, text, where, witness
        self.cfg = job.cfg if job else ""; self.job = job.job if job else ""
        self.extra = extra or {}

    def key(self):
        return "%s|%s|%s" % (self.rule, self.cfg, self.text)

    def dict(self):
        d = {"rule": self.rule, "text": self.text, "where": self.where, "witness": self.witness, "config": self.cfg, "analysis_job": self.job}
        d.update(self.extra)
        return d

    def line(self):
        return "%s: %s%s%s%s" % (self.rule, self.text, " at " + self.where if self.where else "", " [%s]" % self.cfg if self.cfg else "", "; " + self.witness if self.witness else "")


def direction(r):
    return "encryption" if r.opts.get("dir") == "enc" else "decryption"


def vals(r, kinds=("value", "outside", "garbage")):
    return [d for d in r.diffs if d["confirmed"] and d["kind"] in kinds]


def describe(r, d):
    if r.kind == "batch":
        return "%s of packet %d in a batch of %s, maximum length %s: %s (%s)" % (direction(r), d["lane"], r.opts.get("n"), r.opts.get("M"), d["detail"], d["lens"])
    return "single-packet %s: %s (%s)" % (direction(r), d["detail"], d["lens"])


def dfind(rule, r, d):
    return Finding(rule, describe(r, d), "", d["witness"], r, {"diff": d})


def in_contract(r):
    if r.kind == "batch":
        return not r.opts.get("Mbits")
    return True


def stopped(r):
    """the call does not return normally although its contract is respected"""
    return in_contract(r) and r.status in ("aborted", "stop") and r.kind in ("batch", "single", "alloc", "round")


def stop_finding(rule, r):
    ev = [e for e in r.events if e["kind"] in ("abort", "fuel", "null", "uaf", "div", "unreachable", "uninit-branch", "uninit-addr", "overflow") and e["confirmed"]]
    if not ev:
        return None
    e = ev[-1]
    return Finding(rule, "%s does not complete: %s" % (call_text(r), e["text"]), e["where"], e["witness"], r, {"event": e})


def call_text(r):
    if r.kind == "batch":
        return "batch %s of %s packets with maximum length %s" % (direction(r), r.opts.get("n"), r.opts.get("M"))
    if r.kind == "single":
        return "single-packet %s" % direction(r)
    return "the %s interface's context handling" % ("batch" if r.opts.get("api") == "bs" else "single-packet")


def events(r, kinds, where=None):
    return [e for e in r.events if e["kind"] in kinds and e["confirmed"] and (where is None or where(e))]


def efind(rule, r, e):
    return Finding(rule, "%s in %s" % (e["text"], call_text(r)), e["where"], e["witness"] or (e.get("lens") or ""), r, {"event": e})


def results(ctx, *kinds):
    return [r for r in ctx.results if r.kind in kinds]


def conforming(rule, rs):
    """every analysed value equals its definition"""
    out = []
    for r in rs:
        out += [dfind(rule, r, d) for d in vals(r)]
        if stopped(r):
            f = stop_finding(rule, r)
            if f:
                out.append(f)
    return out


# ---------------------------------------------------------------- helpers on signatures
def lane_sigs(r):
    return r.d.get("sigs") or {}


def bad_lengths(r):
    """single-packet job: {length: signature of the result} where the result is not the defined one"""
    return {int(L): v[1] for L, v in lane_sigs(r).items() if not v[3]}


def uneven(ctx):
    """packets of the same length treated differently depending on slot, fill or earlier calls"""
    out, groups = [], {}
    for r in results(ctx, "batch"):
        if r.status == "ok" and in_contract(r):
            groups.setdefault((r.cfg, r.opts["dir"], r.opts["M"], r.opts.get("old", "")), []).append(r)
    for g, rs in groups.items():
        good = [r for r in rs if not [d for d in r.diffs if d["confirmed"]] and int(r.opts["n"]) > 0 and r.n.get("compared")]
        seen = {}
        for r in rs:
            sg = lane_sigs(r)
            badlanes = {d["lane"] for d in r.diffs if d["confirmed"] and d["kind"] in ("value", "outside", "garbage", "foreign")}
            if not badlanes:
                continue
            lanes = sorted(sg, key=int)
            for ln in lanes:
                for L, (eff, a, b, _g) in sg[ln].items():
                    k = (L, eff)
                    if k in seen and seen[k][0] != (a, b):
                        o = seen[k]
                        d = next((d for d in r.diffs if d["confirmed"]), None)
                        out.append(Finding("slot", "%s with maximum length %s: a packet of length %s gets one result as packet %s of %s and another as packet %s of %s" % (
                            direction(r), g[2], L, o[1], o[2].opts["n"] + (" after an earlier call" if o[2].opts.get("prior") else ""), ln, r.opts["n"] + (" after an earlier call" if r.opts.get("prior") else "")), "", d["witness"] if d else "", r))
                        break
                    seen.setdefault(k, ((a, b), ln, r))
                else:
                    continue
                break
            if good and not any(f.cfg == r.cfg for f in out):
                d = next(d for d in r.diffs if d["confirmed"])
                out.append(Finding("slot", "%s with maximum length %s: packet %d comes out as defined in a batch of %s%s but not in a batch of %s%s" % (
                    direction(r), g[2], d["lane"], good[0].opts["n"], " after an earlier call" if good[0].opts.get("prior") else "", r.opts["n"], " after an earlier call" if r.opts.get("prior") else ""), "", d["witness"], r, {"diff": d}))
    return out


def foreign(ctx):
    out = []
    for r in results(ctx, "batch"):
        out += [dfind("foreign", r, d) for d in r.diffs if d["kind"] == "foreign" and d["confirmed"]]
    return out


# ---------------------------------------------------------------- the properties
def dep_finding(rule, r, f):
    return Finding(rule, "single-packet %s: %s" % (direction(r), f["text"]), f["where"] if f["where"].strip() != "()" else "", "length %d" % f["len"], r)


def dep_found(r, *rules):
    return [f for f in r.d.get("found", []) if f["rule"] in rules] if r.kind == "deps" else []


def long_widths(ctx):
    """a length-width report calls for the lengths it speaks of"""
    cfgs = {r.cfg for r in results(ctx, "lens") if BY_NAME[r.cfg].long == 8 and any("dvbcsa_bs" not in f["api"] for f in r.d.get("found", []))}
    cfgs = {ctx.rep_of.get(c, c) for c in cfgs}
    return ctx.more([(c, "deps;dir=%s;L=%d" % (d, L), L / 17000.0) for c in sorted(cfgs)[:2] for d in ("dec", "enc") for L in (65544, 131080, 524304, 524308, 1048596)]) if cfgs else []


def deps_inverse(ctx, more):
    """lengths at which one direction certainly is not DVB-CSA while nothing speaks against the other"""
    bad = {}
    for r in results(ctx, "deps") + more:
        for f in dep_found(r, "missing", "abort", "fuel"):
            bad.setdefault((r.cfg, f["len"]), {}).setdefault(r.opts["dir"], (r, f))
    return [dep_finding("inverse", *next(iter(m.values()))) for k, m in sorted(bad.items(), key=lambda x: x[0][1]) if len(m) == 1][:3]


def c01(ctx):
    out = []
    by = {}
    for r in results(ctx, "single"):
        by.setdefault(r.cfg, {}).setdefault(r.opts["dir"], []).append(r)
    for cfg, dirs in by.items():
        bad = {d: [r for r in rs if vals(r) or stopped(r)] for d, rs in dirs.items()}
        if not bad.get("dec") and not bad.get("enc"):
            continue
        if bool(bad.get("dec")) != bool(bad.get("enc")):
            # one direction is DVB-CSA, a bijection; the other is not, so they are not inverses of each other
            out += conforming("inverse", bad.get("dec") or bad.get("enc"))
            continue
        Ls = set()
        for d in bad:
            for r in bad[d]:
                out += [f for f in ([stop_finding("inverse", r)] if stopped(r) else []) if f]
                Ls |= set(bad_lengths(r))
        if Ls:
            ls = ",".join(str(x) for x in sorted(Ls)[:12])
            for r in ctx.more([(cfg, "round;L=" + ls, 5)]):
                out += [dfind("inverse", r, d) for d in r.diffs if d["confirmed"]]
    out += deps_inverse(ctx, long_widths(ctx))
    for r in results(ctx, "self"):
        if r.status != "ok":
            ctx.broken("the reference definition of the block cipher is not invertible")
    return out


def c02(ctx):
    out = conforming("dvb-csa", results(ctx, "single"))
    for r in results(ctx, "deps") + long_widths(ctx):
        out += [dep_finding("dvb-csa", r, f) for f in dep_found(r, "missing")[:2]]
    for r in results(ctx, "lens"):
        if BY_NAME[r.cfg].long == 8:
            out += [Finding("dvb-csa", "the length is not used as given: %s" % f["text"], f["where"], "reached from %s with a length giving %d" % (f["api"], f["hi"]), r) for f in r.d.get("found", []) if f["rule"] == "narrow" and "dvbcsa_bs" not in f["api"]]
    return out


def single_bad(ctx, cfg):
    rep = ctx.rep_of.get(cfg)
    rs = [r for r in results(ctx, "single") if r.cfg == rep]
    return [r for r in rs if vals(r) or stopped(r)]


def c03(ctx):
    out = []
    for cfg in ctx.modules:
        batch = [r for r in results(ctx, "batch") if r.cfg == cfg and in_contract(r)]
        for d in ("dec", "enc"):
            b = [r for r in batch if r.opts["dir"] == d]
            bbad = [r for r in b if vals(r) or foreign_of(r) or stopped(r)]
            sbad = [r for r in single_bad(ctx, cfg) if r.opts["dir"] == d]
            if not sbad:
                for r in bbad:
                    out += [dfind("batch-single", r, x) for x in vals(r, ("value", "outside", "garbage", "foreign"))]
                    f = stop_finding("batch-single", r) if stopped(r) else None
                    if f:
                        out.append(f)
                continue
            ssig, slens = {}, set()
            for r in sbad:
                ssig.update(bad_lengths(r))
            for r in results(ctx, "single"):
                if r.cfg == ctx.rep_of.get(cfg) and r.opts["dir"] == d and r.status == "ok":
                    slens |= expand(r.opts["L"])
            for r in b:
                if r.status != "ok" or not r.n.get("compared"):
                    continue
                M = int(r.opts["M"])
                if not lane_sigs(r):
                    L = next((x for x in sorted(ssig) if x <= M), None)
                    if L is not None and not r.opts.get("L"):
                        out.append(Finding("batch-single", "%s: a packet of %d bytes comes out as DVB-CSA from a batch but not from the single-packet call" % (direction(r), L), "", next((x["witness"] for q in sbad for x in vals(q)), ""), r))
                    continue
                for ln, m in lane_sigs(r).items():
                    for L, (eff, a, _b, good) in m.items():
                        if eff in slens and (ssig[eff] != a if eff in ssig else not good):
                            x = next((x for x in vals(r)), None)
                            out.append(Finding("batch-single", "%s of packet %s (length %s, maximum %s): the batch and the single-packet call leave different bytes" % (direction(r), ln, L, M), "", x["witness"] if x else "", r))
                            break
    return out


def foreign_of(r):
    return [d for d in r.diffs if d["kind"] == "foreign" and d["confirmed"]]


def expand(s):
    out = set()
    for p in s.split(","):
        a = p.split("-")
        out |= set(range(int(a[0]), int(a[-1]) + 1))
    return out


def written_globals(ctx, rule):
    out = []
    for r in results(ctx, "module"):
        for g in r.d.get("globals", []):
            if g["defined"] and g["written"] and not g["constant"]:
                out.append(Finding(rule, "the library keeps modifiable state: '%s' is written by %s" % (g["name"], g["writer"] or "its own code"), g["writer"], "", r))
    for r in results(ctx, "batch", "single", "alloc"):
        for g in r.d.get("globals_written", []):
            out.append(Finding(rule, "the library keeps modifiable state: '%s' is written during %s" % (g, call_text(r)), "", "", r))
    return out


def c04(ctx):
    return foreign(ctx) + uneven(ctx)


def c05(ctx):
    out = []
    for r in results(ctx, "batch", "single"):
        out += [dfind("outside", r, d) for d in r.diffs if d["kind"] == "outside" and d["confirmed"]]
        out += [efind("outside", r, e) for e in events(r, ("far-write",))]
        out += [efind("outside", r, e) for e in events(r, ("oob-write",), lambda e: "payload" in e["text"])]
    for r in results(ctx, "deps"):
        out += [dep_finding("outside", r, f) for f in dep_found(r, "oob-write") if "payload" in f["text"]][:2]
    return out


def c06(ctx):
    out = []
    for r in results(ctx, "batch", "single", "alloc"):
        if over_capacity(ctx, r):
            continue
        out += [efind("memory", r, e) for e in events(r, ("oob-read", "oob-write", "uaf", "null", "uninit-addr", "uninit-branch"))]
        out += [dfind("uninitialised", r, d) for d in r.diffs if d["kind"] == "garbage" and d["confirmed"]]
    for r in results(ctx, "deps"):
        out += [dep_finding("memory", r, f) for f in dep_found(r, "oob-read", "oob-write", "uaf", "null")][:2]
    return out


def over_capacity(ctx, r):
    return r.kind == "batch" and r.cfg in ctx.cap and int(r.opts.get("n", 0)) > ctx.cap[r.cfg]


def c07(ctx):
    out = written_globals(ctx, "state")
    for r in results(ctx, "batch", "single", "alloc"):
        out += [efind("read-only", r, e) for e in events(r, ("ro-write",))]
    for r in results(ctx, "module"):
        for g in r.d.get("globals", []):
            if not g["defined"] and g["written"]:
                out.append(Finding("state", "an object outside the library is written: '%s'" % g["name"], "", "", r))
    return out


def c08(ctx):
    out = []
    for r in results(ctx, "batch", "single"):
        out += [dfind("stale-key", r, d) for d in r.diffs if d["kind"] == "stale" and d["confirmed"]]
        out += [efind("control-word", r, e) for e in events(r, ("uaf", "ro-write"), lambda e: "control word" in e["text"])]
    for r in results(ctx, "hist"):
        out += [dfind("stale-key", r, d) for d in r.diffs if d["kind"] == "history" and d["confirmed"]]
        out += [efind("control-word", r, e) for e in events(r, ("uaf", "ro-write"), lambda e: "control word" in e["text"])]
    return out


def c09(ctx):
    out = []
    for r in results(ctx, "alloc"):
        out += [Finding("allocation", d["detail"] or d["kind"], "", "", r, {"diff": d}) if d["kind"] not in ("alloc-result", "leak") else Finding("allocation", d["detail"] or d["witness"], "", "", r, {"diff": d}) for d in r.diffs if d["confirmed"]]
        out += [efind("allocation", r, e) for e in events(r, ("alloc", "alloc-pair"))]
        out += [efind("allocation", r, e) for e in events(r, ("oob-read", "oob-write", "align", "null", "uaf"), lambda e: "payload" not in e["text"])]
        if r.n.get("alloc_elsewhere"):
            out.append(Finding("allocation", "a call other than allocation and release obtains or releases memory", "", "", r))
        if r.n.get("live_blocks"):
            out.append(Finding("allocation", "%d block(s) stay allocated after the context was freed" % r.n["live_blocks"], "", "", r))
        if stopped(r):
            f = stop_finding("allocation", r)
            if f:
                out.append(f)
    return out


def c10(ctx):
    out = []
    for r in results(ctx, "lens"):
        if BY_NAME[r.cfg].long != 8:
            continue                  # no object of 2^31 bytes or more exists on a 32-bit target
        for f in r.d.get("found", []):
            out.append(Finding("length-width", "%s: %s" % ({"narrow": "narrowing of", "signed": "", "counter": "", "overflow": "overflow of"}.get(f["rule"], "") or f["rule"], f["text"]), f["where"], "reached from %s with a length giving %d" % (f["api"], f["hi"]), r))
    # batch descriptors: a long packet must be processed like any other packet longer than the maximum
    for r in results(ctx, "batch"):
        for ln, m in lane_sigs(r).items():
            M = int(r.opts["M"]); ref = None
            for L in sorted(m, key=int):
                eff, a, _, _g = m[L]
                if int(L) >= M and eff == M and M >= 8:
                    if ref and ref[0] != a:
                        out.append(Finding("length-width", "%s of packet %s: a packet of length %s is not processed like one of length %s although both exceed the maximum %d" % (direction(r), ln, L, ref[1], M), "", "", r)); break
                    ref = ref or (a, L)
        for e in events(r, ("oob-read", "oob-write", "far-write"), lambda e: e.get("first", 0) > 65535):
            out.append(efind("length-width", r, e))
    # long single packets: every whole block and trailing byte is processed like those of short ones
    short = {}
    for r in results(ctx, "deps"):
        for f in dep_found(r, "missing"):
            if f["len"] < 128:
                short[(r.cfg, r.opts["dir"])] = 1
    for r in results(ctx, "deps"):
        if (r.cfg, r.opts["dir"]) not in short:
            out += [dep_finding("length-width", r, f) for f in dep_found(r, "missing", "oob-read", "oob-write", "fuel") if f["len"] >= 256][:2]
    # lengths just beyond 8 bits, compared with shorter ones
    bad = {}
    ok = {}
    for r in results(ctx, "single"):
        for L in expand(r.opts["L"]):
            if L in bad_lengths(r):
                bad.setdefault((r.cfg, r.opts["dir"]), {})[L] = r
        if r.status == "ok":
            ok.setdefault((r.cfg, r.opts["dir"]), set()).update(expand(r.opts["L"]) - set(bad_lengths(r)))
    for k, m in bad.items():
        big = [L for L in m if L >= 128]
        if big and max(ok.get(k, {0})) >= 24:
            L = min(big); r = m[L]; d = next(iter(vals(r)), None)
            out.append(Finding("length-width", "single-packet %s is right for lengths up to %d but not for length %d" % (direction(r), max(x for x in ok[k] if x < L), L), "", d["witness"] if d else "", r))
    return out


def c11(ctx):
    out = []
    for r in results(ctx, "batch", "alloc", "single"):
        out += [Finding("mmx-state", "%s (first MMX register use at %s) in %s" % (d["detail"], d["witness"], call_text(r)), d["witness"], "", r) for d in r.diffs if d["kind"] == "mmx" and d["confirmed"]]
    return out


def c13(ctx, only=None):
    out, groups = [], {}
    for r in results(ctx, "batch", "single"):
        if only and r.cfg not in only:
            continue
        if in_contract(r) and r.status in ("ok", "aborted", "stop"):
            k = (r.kind, r.opts["dir"], r.opts.get("M"), r.opts.get("old")) if r.kind == "batch" else (r.kind, r.opts["dir"])
            groups.setdefault(k, []).append(r)
    for k, rs in groups.items():
        bad = [r for r in rs if vals(r) or foreign_of(r) or stopped(r)]
        if not bad:
            continue
        if k[0] == "single":
            # compare per length over representatives
            lens = {}
            for r in rs:
                if r.status == "ok":
                    for L in expand(r.opts["L"]):
                        lens.setdefault(L, []).append((bad_lengths(r).get(L, "defined"), r))
            for L, xs in sorted(lens.items()):
                s = {x[0] for x in xs}
                if len(s) > 1:
                    r = next(x[1] for x in xs if x[0] != "defined"); d = next(iter(vals(r)), None)
                    o = next(x[1] for x in xs if x[0] != bad_lengths(r).get(L, "defined"))
                    out.append(Finding("configurations", "single-packet %s of %d bytes gives other bytes in configuration %s than in %s" % (direction(r), L, r.cfg, o.cfg), "", d["witness"] if d else "", r)); break
            st = [r for r in bad if stopped(r)]
            if st and len({r.cfg for r in st}) < len({r.cfg for r in rs}):
                f = stop_finding("configurations", st[0])
                out += [f] if f else []
            continue
        badc = {r.cfg for r in bad}
        goodc = {r.cfg for r in rs if r.status == "ok" and r.n.get("compared")} - badc
        if goodc:
            r = bad[0]; d = next(iter(vals(r, ("value", "outside", "garbage", "foreign"))), None)
            if d:
                out.append(Finding("configurations", "%s with maximum length %s gives other bytes in configuration %s than in %s: %s" % (direction(r), k[2], r.cfg, sorted(goodc)[0], describe(r, d)), "", d["witness"], r, {"diff": d}))
            else:
                f = stop_finding("configurations", r)
                out += [f] if f else []
            continue
        seen = {}
        for r in bad:
            for ln, m in lane_sigs(r).items():
                if int(ln) >= 32:
                    continue
                for L, (eff, a, b, _g) in m.items():
                    kk = (ln, L)
                    if kk in seen and seen[kk][0] != (a, b):
                        out.append(Finding("configurations", "%s of packet %s (length %s) with maximum length %s gives other bytes in configuration %s than in %s" % (direction(r), ln, L, k[2], r.cfg, seen[kk][1].cfg), "", "", r))
                        break
                    seen.setdefault(kk, ((a, b), r))
    return out


def c23(ctx):
    """the AltiVec builds against the default build"""
    out = []
    for cfg in BY_NAME.values():
        if cfg.backend != "altivec":
            continue
        if cfg.name in ctx.unbuilt:
            why = ctx.unbuilt[cfg.name]
            if not frontend.gcc_builds(cfg, ctx.work):
                out.append(Finding("altivec", "configuration %s does not compile: %s" % (cfg.name, next((l.split("error:")[-1].strip() for l in why.splitlines() if "error:" in l), why[:200]))))
            continue
        for f in c13(ctx, {"default", cfg.name}):
            f.rule = "altivec"; out.append(f)
    return out


def c14(ctx):
    out = []
    for r in results(ctx, "batch", "single", "alloc"):
        out += [efind("alignment", r, e) for e in events(r, ("align",))]
    return out


def c15(ctx):
    out = []
    for r in results(ctx, "batch"):
        if over_capacity(ctx, r) or not in_contract(r):
            continue
        out += [efind("descriptors", r, e) for e in events(r, ("oob-read", "oob-write", "uninit-branch", "uninit-addr", "ro-write"), lambda e: "descriptor" in e["text"])]
        M, n = int(r.opts["M"]), int(r.opts["n"])
        if r.status == "ok" and M >= 8 and n and r.d.get("unwritten"):
            if any(vals(r)):
                bad = {d["lane"] for d in vals(r)}
                for ln in r.d["unwritten"]:
                    d = next((d for d in vals(r) if d["lane"] == ln), None)
                    if d or r.n.get("diffs_not_listed"):
                        out.append(Finding("descriptors", "%s: packet %d of a batch of %d is not processed" % (direction(r), ln, n), "", (d or vals(r)[0])["witness"], r)); break
        # what lies behind the terminator, or its length, decides something
        out += [efind("descriptors", r, e) for e in events(r, ("uninit-branch", "uninit-addr"), lambda e: "terminating" in e["witness"])]
        if n == 0 and r.n.get("payload_touched"):
            out.append(Finding("descriptors", "an empty batch touches a payload", "", "", r))
    for f in uneven(ctx):
        r = next((x for x in ctx.results if x.cfg == f.cfg and x.job == f.job), None)
        if r and r.d.get("unwritten"):
            out.append(f)
    return out


def c16(ctx):
    out = []
    for r in results(ctx, "batch", "single", "alloc"):
        if over_capacity(ctx, r):
            continue
        out += [efind("termination", r, e) for e in events(r, ("fuel", "dataloop", "rounds"))]
        if stopped(r):
            out += [efind("termination", r, e) for e in events(r, ("abort", "unreachable"))]
        if r.kind == "single" and r.status == "ok":
            per = dict(map(tuple, r.d.get("steps_per_length", [])))
            base = [(L, s) for L, s in per.items() if L >= 8]
            for L, s in base:
                for L2, s2 in base:
                    if L2 >= 4 * L and s2 > 3 * s * L2 / L:
                        out.append(Finding("work", "single-packet %s of %d bytes takes %d analysed steps, of %d bytes %d: more than proportional" % (direction(r), L, s, L2, s2), "", "", r)); break
    per = {}
    for r in results(ctx, "deps"):
        out += [dep_finding("termination", r, f) for f in dep_found(r, "fuel", "abort")][:2]
        for L, s in r.d.get("steps_per_length", []):
            if r.status == "ok" and not dep_found(r, "oob-read", "oob-write", "uaf", "null", "fuel", "abort", "division") and L >= 64:
                per.setdefault((r.cfg, r.opts["dir"]), {})[L] = (s, r)
    for (cfg, d), m in per.items():
        base = max(s / L for L, (s, r) in m.items() if L == min(m))
        for L, (s, r) in sorted(m.items()):
            if s / L > 3 * base and L >= 4 * min(m):
                out.append(Finding("work", "single-packet %s of %d bytes takes %d analysed steps, of %d bytes %d: more than proportional" % (direction(r), min(m), m[min(m)][0], L, s), "", "", r)); break
    for r in results(ctx, "lens"):
        if BY_NAME[r.cfg].long == 8:
            for f in r.d.get("found", []):
                if f["rule"] == "counter":
                    out.append(Finding("termination", f["text"] + ": the loop never ends", f["where"], "reached from %s with a length giving %d" % (f["api"], f["hi"]), r))
    return out


PURE = {"memcpy", "memmove", "memset", "memcmp", "mempcpy", "bcopy", "bzero", "explicit_bzero", "memchr", "bcmp", "__memcpy_chk", "__memmove_chk", "__memset_chk"}
MEMORY = {"malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "memalign", "_mm_malloc", "_mm_free", "valloc"}
BADINTR = ("llvm.x86.sse.ldmxcsr", "llvm.x86.sse.stmxcsr", "llvm.set.rounding", "llvm.set.fpmode", "llvm.reset.fpmode", "llvm.set.fpenv", "llvm.reset.fpenv", "llvm.x86.flags.write", "llvm.eh.sjlj", "llvm.aarch64.set.fpcr", "llvm.arm.set.fpscr", "llvm.ppc.mtfsf", "llvm.ppc.setrnd", "llvm.x86.rdtsc", "llvm.readcyclecounter", "llvm.longjmp", "llvm.write_register", "llvm.write_volatile_register", "llvm.clear_cache", "llvm.x86.int", "llvm.x86.sse2.pause")
API = {"dvbcsa_key_alloc": "alloc", "dvbcsa_key_free": "free", "dvbcsa_key_set": "", "dvbcsa_decrypt": "", "dvbcsa_encrypt": "", "dvbcsa_bs_key_alloc": "alloc", "dvbcsa_bs_key_free": "free", "dvbcsa_bs_key_set": "", "dvbcsa_bs_batch_size": "", "dvbcsa_bs_decrypt": "", "dvbcsa_bs_encrypt": ""}


def c17(ctx):
    out = []
    for r in results(ctx, "graph"):
        g = r.d["facts"]["graph"]; al = r.d["facts"]["aliases"]
        for api, kind in API.items():
            if api not in g:
                continue
            seen, work = {api}, [(api, [api])]
            while work:
                f, path = work.pop()
                for name, where, live, ind in g[f]["calls"]:
                    if not live:
                        continue              # cannot come back to the caller from here: a refusal
                    name = al.get(name, name)
                    if name in g:
                        if name not in seen:
                            seen.add(name); work.append((name, path + [name]))
                    elif name.startswith("llvm."):
                        if name.startswith(BADINTR):
                            out.append(Finding("effects", "%s uses %s" % (api, name), where, "call path " + " -> ".join(path), r))
                    elif name in PURE or (name in MEMORY and kind) or name.startswith("__aeabi_mem"):
                        pass
                    else:
                        out.append(Finding("effects", "%s calls %s()" % (api, name), where, "call path " + " -> ".join(path), r))
                for kind2, where, text, se in g[f]["other"]:
                    if kind2 == "asm" and se and text.strip() and text.strip() not in ("emms",):
                        out.append(Finding("effects", "%s executes machine code '%s'" % (api, text.strip()[:60]), where, "call path " + " -> ".join(path), r))
            r.n["reached"] = r.n.get("reached", 0) + len(seen)
        for c in r.d["facts"]["ctors"]:
            out.append(Finding("effects", "the library runs code when it is loaded (%s)" % c, "", "", r))
    for r in results(ctx, "batch", "single", "alloc"):
        if over_capacity(ctx, r):
            continue
        if stopped(r) or r.n.get("returned") == 0:
            out += [efind("effects", r, e) for e in events(r, ("abort",))]
    return out


def c18(ctx):
    out = []
    for r in results(ctx, "batch"):
        p = r.opts.get("Mbits")
        if p:
            txt = "maximum length %s (bits, x = any)" % p if "x" in p else "maximum length %d" % int(p, 2)
            out += [Finding("refusal", "batch %s with %s touches payload bytes before it is refused" % (direction(r), txt), e["where"], e["witness"], r) for e in events(r, ("payload-access",))]
            out += [Finding("refusal", "batch %s with %s is not refused" % (direction(r), txt), e["where"], e["witness"], r) for e in events(r, ("returned",))]
            out += [efind("refusal", r, e) for e in events(r, ("oob-write", "oob-read", "fuel"))]
        elif not over_capacity(ctx, r):
            ab = events(r, ("abort",))
            out += [Finding("acceptance", "batch %s with permitted maximum length %s is stopped: %s" % (direction(r), r.opts["M"], e["text"]), e["where"], e["witness"], r) for e in ab]
    return out


def c19(ctx):
    out = []
    for r in results(ctx, "batch", "single", "alloc"):
        if over_capacity(ctx, r):
            continue
        out += [efind("undefined", r, e) for e in events(r, ("shift", "overflow", "tbaa", "overlap", "div", "unreachable"))]
    return out


RULES = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C13=c13, C14=c14, C15=c15, C16=c16, C17=c17, C18=c18, C19=c19, C23=c23)
