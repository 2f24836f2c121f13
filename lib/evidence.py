"""evidence/<id>.json: what one run analysed"""
import json, os, time
from frontend import VERIF

VALUE = "abstract interpretation of the LLVM IR of each configuration: every bit of every value is a canonical GF(2) polynomial in the key, payload and packet-length inputs; all sides of a branch are joined under their conditions; a property holds where the canonical form of the result is identical to that of the definition, or where no operation breaks the rule under a satisfiable condition"
RULE = {
 "C01": "both single-packet directions have the canonical values of the DVB-CSA definition, whose block rounds are inverse by an identity and whose stream part is a self-inverse addition; at long lengths every dependency the definition has is in the over-approximated dependency set of each byte",
 "C02": "canonical value of every output bit of the single-packet calls = DVB-CSA definition, per length; at long lengths every dependency the definition has is in the dependency set of each byte; no length-derived value is narrowed",
 "C03": "canonical value of every bit of every packet of a batch = DVB-CSA definition on min(length, maximum), as is the single-packet result; all lengths at once",
 "C04": "canonical value of every packet contains no other packet's inputs, is the same in every slot, for every fill and after an earlier call; no state survives a call",
 "C05": "canonical value of every payload byte beyond the processed part = its input",
 "C06": "every access of every analysed operation lies inside its object under its path condition; no branch, address or result has an undefined canonical value",
 "C07": "no store under a satisfiable condition into contexts during encryption/decryption, inputs or constants; no modifiable object of the library is ever written",
 "C08": "with the context's former contents as free inputs, every result has the canonical value of the definition; after each of about 115 histories of settings the context has the canonical contents of a fresh one; no access to the control word after setting",
 "C09": "typestate of allocated blocks over allocation, use and release, with succeeding and failing allocators: result, size, alignment, family, exactly one release",
 "C10": "interval and width analysis of everything derived from the length parameter (all functions inlined); canonical batch values at lengths up to 2^32-1; single-packet lengths across 8-bit boundaries",
 "C11": "typestate of the MMX/x87 register file: never in MMX use when a call returns",
 "C12": "compile-time witnesses for the header (type of every function, C linkage), presence and type of every definition, closed set of undefined symbols, constant batch size equal to capacity",
 "C13": "canonical values of all configurations are identical",
 "C14": "alignment assumed by every access <= alignment guaranteed by the object (1 for payloads and control words)",
 "C15": "for every fill: descriptors before the terminator are all processed, none behind it read, terminator length unused, descriptors not written",
 "C16": "every loop's exit is decided without key or payload bits, within a step bound; no loop counter narrower than its length-derived bound; work proportional to length",
 "C17": "every external function, intrinsic and machine instruction reachable in the call graph from an entry point (and from which control can return) is in the allowed set for that entry point; no stop on a permitted call",
 "C18": "for a partition of all 2^32 excluded maximum lengths into bit patterns: the call always stops at its assertion before any payload access; every permitted value returns",
 "C19": "no shift by the width, signed overflow, incompatible-type access (TBAA), overlapping copy or division by zero under a satisfiable condition",
 "C23": "canonical values of every AltiVec build are those of the default build; every AltiVec build compiles",
}


def write(ctx, new, old):
    R = ctx.results
    jobs = [r for r in R if r.kind not in ("size", "self")] if ctx.prop != "C12" else R
    value = [r for r in jobs if r.kind in ("batch", "single", "alloc", "round", "hist", "deps")]
    dec = [r for r in jobs if r.decided()]
    und = [r for r in jobs if not r.decided()]
    S = lambda k: sum(r.n.get(k, 0) for r in value)
    per = {}
    for r in und:
        per.setdefault("%s: %s" % (r.status, r.why[:160]), []).append(r.name())
    per = {"%s (%d jobs)" % (k, len(v)): v for k, v in per.items()}
    undecided = sum(r.n.get("undecided", 0) for r in value)
    unconf = sum(1 for r in value for e in r.events if not e["confirmed"]) + sum(1 for r in value for d in r.diffs if not d["confirmed"] and d["kind"] != "undecided")
    cov = {
        "explanation": RULE[ctx.prop] + ". Method: " + (VALUE if value else "analysis of the linked LLVM IR"),
        "obligations": S("compared") + sum(r.n.get("accesses", 0) for r in value if ctx.prop in ("C06", "C07", "C14", "C19")) + sum(r.n.get("sites", 0) for r in jobs) + sum(r.n.get("reached", 0) for r in jobs) + len([r for r in value if not r.n.get("compared")]),
        "output_bits_compared": S("compared"), "output_bits_identical": S("proved"), "output_bits_undecided": undecided, "unconfirmed_reports": unconf,
        "abstract_steps": S("steps"), "memory_accesses_checked": S("accesses"), "branches": S("branches"), "length_dependent_branches": S("symbolic_branches"), "table_lookups": S("lookups"),
        "configurations": sorted({r.cfg for r in dec}), "configurations_not_built": {k: v[-300:] for k, v in ctx.unbuilt.items()},
        "single_packet_code_groups": {n: sorted(k for k, v in ctx.rep_of.items() if v == n) for n in ctx.single_reps},
        "functions_analysed": sorted({f for r in value for f in r.d.get("functions_seen", [])}),
        "jobs": len(jobs), "decided_jobs": len(dec), "undecided_jobs": {k: v[:20] for k, v in per.items()},
        "samples": [r.name() for r in dec[:3]] + [r.name() for r in dec[-3:]],
        "batch_fills": sorted({int(r.opts["n"]) for r in dec if r.kind == "batch"}), "batch_maxima": sorted({int(r.opts["M"]) for r in dec if r.kind == "batch"}),
        "single_lengths": sorted({x for r in dec if r.kind == "single" for x in _exp(r.opts["L"])}),
        "key_histories": S("histories"), "excluded_maxima_patterns": len({r.opts["Mbits"] for r in dec if r.opts.get("Mbits")}),
        "width_sites": sum(r.n.get("sites", 0) for r in jobs), "call_sites": sum(r.d.get("facts", {}).get("call_sites", 0) for r in jobs),
    }
    cov.update(ctx.note)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
          "assumptions": ["clang 18 front end and its normalisation passes translate the source faithfully", "the analyser's transfer functions for LLVM IR instructions and vendor intrinsics", "the DVB-CSA definition in engine/spec.cpp"],
          "wall_s": round(time.time() - ctx.t0, 2), "violations": len(new)}
    if old:
        cov["known_findings"] = [f.line() for f in old]
    if new:
        cov["findings"] = [f.dict() for f in new[:20]]
    d = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence"); os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ctx.prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, ctx.prop + ".json"))
    return ev


def _exp(s):
    out = set()
    for p in s.split(","):
        a = p.split("-"); out |= set(range(int(a[0]), int(a[-1]) + 1))
    return out


def summary(ev):
    c = ev["coverage"]
    yield "%s (%s): %d of %d analysis jobs decided over %d configurations; %d output bits compared, %d identical, %d undecided; %d accesses, %d abstract steps; %.0f s" % (
        ev["property"], ev["tier"], c["decided_jobs"], c["jobs"], len(c["configurations"]), c["output_bits_compared"], c["output_bits_identical"], c["output_bits_undecided"], c["memory_accesses_checked"], c["abstract_steps"], ev["wall_s"])
    for k, v in list(c["undecided_jobs"].items())[:8]:
        yield "  undecided: %s, e.g. %s" % (k, v[0])
