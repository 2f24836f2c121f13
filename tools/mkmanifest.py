"""writes /verif/MANIFEST.json"""
import json
T = {
 "C01": "abstract interpretation of LLVM IR to canonical GF(2) values (value numbering); both directions against their definition",
 "C02": "abstract interpretation of LLVM IR to canonical GF(2) values, compared with the DVB-CSA definition",
 "C03": "abstract interpretation of LLVM IR to canonical GF(2) values, all packet lengths joined; batch against single-packet values",
 "C04": "information-flow and equality analysis on canonical values per slot, fill and call history; written-globals effect analysis",
 "C05": "canonical values of unprocessed bytes and store-target analysis",
 "C06": "object-bounds and definedness analysis by abstract interpretation of LLVM IR",
 "C07": "store-effect analysis over every object class; modifiable-globals analysis",
 "C08": "canonical-value analysis with free former context contents; use-after-call analysis of the control word",
 "C09": "allocation typestate, size, alignment and ownership analysis with failing allocators",
 "C10": "interprocedural interval and integer-width analysis of length-derived values; canonical values across length boundaries",
 "C11": "typestate analysis of the MMX/x87 register file",
 "C12": "type-level compile-time witnesses, symbol and prototype queries over LLVM IR, capacity analysis",
 "C13": "canonical values compared across 30 build configurations",
 "C14": "alignment analysis: assumed against guaranteed alignment of every access",
 "C15": "descriptor-access analysis and canonical values for every batch fill",
 "C16": "loop-exit dependence and bound analysis; interval analysis of loop counters",
 "C17": "call-graph effect analysis: everything reachable against an allow-list per entry point",
 "C18": "abstract interpretation with bit-pattern maxima: refusal dominates every payload access",
 "C23": "canonical values of the AltiVec builds compared with the default build's",
 "C19": "shift-range, signed-overflow, effective-type (TBAA) and overlap analysis under path conditions",
}
COMMON = "Static: the LLVM IR of every configuration is analysed, nothing is run. "
TRUST = " Trusted: clang 18's front end and normalisation passes, the analyser's transfer functions, engine/spec.cpp. Analysed lengths, maxima and fills are bounded and listed in the evidence; undecided jobs are counted there and are not violations."
N = {
 "C01": "Sound and complete per analysed length (quick 0-24, several up to 257) for all keys and payloads; other lengths by uniformity of the loops only.",
 "C02": "Sound and complete per analysed length for all keys and payloads.",
 "C03": "For all keys, payloads and all packet lengths 0..2^32-1 at once, per analysed (fill, maximum, configuration).",
 "C04": "For all payloads of the other packets and all lengths at once, per analysed (fill, maximum, configuration); one earlier call as history.",
 "C05": "For all lengths at once in batches; single-packet per analysed length.",
 "C06": "Every access of every analysed call; all packet lengths at once in batches.",
 "C07": "Effects: no store to shared objects and no modifiable globals implies freedom from interference under every schedule.",
 "C08": "For all previous contents of the context (unconstrained), all keys.",
 "C09": "Both allocator outcomes, every allocator variant configured.",
 "C10": "Interval analysis covers every length; canonical batch values every descriptor length; single-packet values sampled across 8-bit boundaries.",
 "C11": "All paths of analysed calls on the MMX configurations; compiler-generated MMX outside vendor intrinsics is not modelled.",
 "C12": "Witnesses for 6 targets and 6 language levels; definitions and undefined symbols of 30 configurations.",
 "C13": "30 configurations at the same maxima; all keys, payloads, lengths.",
 "C14": "Every access of every analysed call, payloads and control words assumed to have alignment 1.",
 "C15": "Fills up to capacity (every fill for the default build in the thorough tier), all descriptor contents.",
 "C16": "Loop exits free of key and payload data, bounded step counts, per analysed call; counter widths for all lengths.",
 "C17": "Over-approximating call graph of 30 configurations; allow-list of services.",
 "C18": "The excluded maxima are covered completely by bit patterns for the default build (both directions); other configurations by representatives.",
 "C23": "All keys, payloads and lengths at once, per analysed (fill, maximum); three AltiVec configurations.",
 "C19": "The listed kinds of undefined behaviour; pointer arithmetic beyond one-past-the-end is not judged.",
}
NA = {
 "C20": "speed is a property of processors and compilers' output, not of the source; no static bound on time is in reach",
 "C21": "the ciphers use key- and payload-dependent table look-ups by design in every interface, so the property does not hold for this library and there is nothing to decide (loop and branch independence of data is claimed under C16)",
 "C22": "the configuration step is a generated shell script probing its host; what it selects is a fact about hosts and compilers, not decidable from this source",
}
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "One analyser (engine/, C++ on LLVM IR), one driver (check.py). No hooks in /repo. See DESIGN.md."}
for c in sorted(T):
    m["checks"].append({"property": c, "quick_cmd": "python3 check.py " + c, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + c,
                        "evidence_file": "evidence/%s.json" % c, "technique": T[c], "level": "other", "level_note": COMMON + N[c] + TRUST})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
