// Command line of the analyser:  vengine MODULE JOB...     JOB = kind;key=value;...
// One JSON object per job on standard output.
#include "interp.h"
#include "spec.h"
#include "lens.h"
#include "deps.h"
#include <cstdio>
#include <cstring>
#include <chrono>
#include <algorithm>
#include <sys/resource.h>

typedef std::map<std::string, std::string> Opts;
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((u8)c < 32) { r += ' '; continue; } r += c; } return "\"" + r + "\""; }
static u64 num(const Opts &o, const char *k, u64 d) { auto it = o.find(k); return it == o.end() ? d : strtoull(it->second.c_str(), nullptr, 0); }
static std::string str(const Opts &o, const char *k, const char *d = "") { auto it = o.find(k); return it == o.end() ? d : it->second; }
static std::vector<u64> list(const std::string &s) {
  std::vector<u64> r; const char *p = s.c_str();
  while (*p) { char *e; u64 a = strtoull(p, &e, 0); if (*e == '-') { u64 b = strtoull(e + 1, &e, 0); while (a <= b) { r.push_back(a); if (a == b) break; a++; } } else r.push_back(a); p = *e ? e + 1 : e; }
  return r;
}

struct Diff { std::string kind, witness, lens, detail; u32 lane, byte; bool confirmed; u64 count; };
struct Report {
  std::string status = "ok", why; std::vector<Diff> diffs; std::map<std::string, u64> n; std::vector<std::pair<std::string, std::string>> extra;
  void add(const std::string &kind, u32 lane, u32 byte, const std::string &wit, const std::string &lens, bool conf, const std::string &detail = "") {
    for (auto &d : diffs) if (d.kind == kind && d.confirmed == conf && d.lane == lane) { d.count++; return; }
    u32 c = 0; for (auto &d : diffs) if (d.kind == kind) c++; if (c > 6) { n["diffs_not_listed"]++; return; }
    diffs.push_back({kind, wit, lens, detail, lane, byte, conf, 1});
  }
};
static std::string hexKey(Eval &e, u32 s) { std::string r; char buf[8]; for (int i = 0; i < 8; i++) { u32 v = 0; for (int b = 0; b < 8; b++) v |= (u32)(e.base("key" + std::to_string(i * 8 + b)) >> s & 1) << b; snprintf(buf, 8, "%02x", v); r += buf; } return r; }
static std::string hexPay(Eval &e, u32 s, u64 L) { std::string r; char buf[8]; for (u64 i = 0; i < L && i < 24; i++) { u32 v = 0; for (int b = 0; b < 8; b++) v |= (u32)(e.base("p" + std::to_string(i) + "." + std::to_string(b)) >> s & 1) << b; snprintf(buf, 8, "%02x", v); r += buf; } if (L > 24) r += "..."; return r; }

static std::map<std::pair<u32, u64>, Eval *> EV;
static Eval &evalAt(u32 pt, u64 seed) { auto &e = EV[{pt, seed}]; if (!e) e = new Eval(pt, seed); return *e; }
struct CmpKey { Poly x, w; LSet D; u32 j; bool operator<(const CmpKey &k) const { return std::tie(x, w, D, j) < std::tie(k.x, k.w, k.D, k.j); } };
static bool OLDMODE; static std::set<u32> BADPTS; 
struct Mixed { Bit x; Poly want; LSet D; u32 lane, j; u64 fixedL; bool sym; }; static std::vector<Mixed> mixed;   // result bits that mention another packet

static std::set<CmpKey> undecidedSeen;                   // same comparison on another lane
static void evalReset() { undecidedSeen.clear(); mixed.clear(); for (auto &x : EV) delete x.second; EV.clear(); }
// compare one output bit with its specification
static void cmpBit(Report &R, Interp &ip, Bit x, Poly want, LSet D, u32 lane, u32 j, u32 b, const std::function<bool(u64)> &outside, u64 fixedL, bool sym) {
  R.n["compared"]++;
  if (!D) return;
  auto anyOutside = [&](LSet S) { for (u32 k = 0; k < LPTS.size(); k++) if (lHas(S, k) && outside(sym ? LPTS[k] : fixedL)) return true; return false; };
  if (x != UNINIT && bTag(x) == T_GT && bDefinedWhen(x)) { // defined under a data-dependent condition: does the condition ever fail?
    Bit dw = bDefinedWhen(x); bool bad = false;
    for (u32 t = 0; t < 60 && !bad; t++) {
      u32 pt = hash64(t * 131 + 7) % LPTS.size(); for (u32 k = 0; k < LPTS.size(); k++) if (lHas(D, (pt + k) % LPTS.size())) { pt = (pt + k) % LPTS.size(); break; }
      BEval e; e.gseed = t; e.make = [&](u32 tg) { return new Eval(tg == lane + 1 ? pt : (u32)(hash64(t * 31 + tg) % LPTS.size()), hash64(t * 977 + tg)); }; bad = ~e.bit(dw) != 0;
    }
    if (!bad) x = bIfDefined(x);
  }
  if (x == UNINIT || bTag(x) == T_GT) { if (anyOutside(D)) R.add("outside", lane, j, "", sym ? lText(D) : "length " + std::to_string(fixedL), true, "byte " + std::to_string(j) + " is overwritten with memory that was never written"); R.add("garbage", lane, j, "", sym ? lText(D) : "length " + std::to_string(fixedL), true, "byte " + std::to_string(j) + " holds a value that was never written"); return; }
  u32 tag = lane + 1;
  if (bTag(x) == T_X || (bTag(x) && bTag(x) != tag)) {
    mixed.push_back({x, want, D, lane, j, sym ? 0 : fixedL, sym}); return;       // looked at together, below
  }
  Poly xi = pResolve(bId(x)); want = pResolve(want); Poly a = pRestrict(xi, D), w = pRestrict(want, D);
  if (a == w) { R.n["proved"]++; return; }
  LSet g = lAnd(pG(a), D); g = lXor(g, lAnd(g, pG(w)));
  if (g && anyOutside(g)) R.add("outside", lane, j, "", sym ? lText(g) : "length " + std::to_string(fixedL), true, "byte " + std::to_string(j) + " is overwritten with what rests on memory that was never written");
  if (g) R.add("garbage", lane, j, "", sym ? lText(g) : "length " + std::to_string(fixedL), true, "byte " + std::to_string(j) + " rests on memory that was never written");
  LSet D2 = lAnd(D, lNot(g)); if (!D2) return; a = pRestrict(xi, D2); w = pRestrict(want, D2); if (a == w) { R.n["proved"]++; return; }
  CmpKey ck{a, w, D2, j}; if (sym && undecidedSeen.count(ck)) { R.n["undecided"]++; return; }
  Poly d = pXor(a, w); LSet S = lAnd(lAnd(pMay1(d), D2), lNot(pG(d))); u32 tried = 0; bool anyOut = false, anyIn = false;
  for (u32 k = 0; k < LPTS.size() && tried < 60; k++) {
    if (!lHas(S, k)) continue; bool os = outside(sym ? LPTS[k] : fixedL); if ((os && anyOut) || (!os && anyIn)) continue; tried++;
    for (u32 s = 0; s < 2; s++) {
      Eval &e = evalAt(k, hash64(s + 99)); u64 va = e.poly(a), vw = e.poly(w), v = va ^ vw; if (!v) continue; u32 q = __builtin_ctzll(v); u64 L = sym ? LPTS[k] : fixedL;
      BADPTS.insert(k);
      if (OLDMODE) { Eval e2(k, hash64(s + 99)); e2.salt = 0x01dULL << 20; if (e2.poly(a) != va) R.add("stale", lane, j, "length " + std::to_string(L) + ", control word " + hexKey(e, q), "", true, "byte " + std::to_string(j) + " depends on what the context held before"); }
      R.add(os ? "outside" : "value", lane, j, "length " + std::to_string(L) + ", control word " + hexKey(e, q) + ", payload " + hexPay(e, q, L), sym ? lText(S) : "length " + std::to_string(L), true, "byte " + std::to_string(j) + " bit " + std::to_string(b)); (os ? anyOut : anyIn) = true; break;
    }
  }
  if (!anyIn && !anyOut) { undecidedSeen.insert(ck); R.n["undecided"]++; R.add("undecided", lane, j, "", lText(S), false, "byte " + std::to_string(j) + " bit " + std::to_string(b) + ": " + pText(a) + "  <>  " + pText(w)); }
}

// Bits that mention another packet: do they really depend on it, and are they right? Sampled, all bits together; half of
// the packets are changed in every round.
static void cmpMixed(Report &R, const std::function<bool(u64, u64)> &outside) {
  struct Known { bool dep, mism, out; std::string wit, dwit; u32 j; LSet D; u64 count; }; std::map<u32, Known> kn; auto t0 = std::chrono::steady_clock::now();
  for (auto &x : mixed) { auto &k = kn[x.lane]; if (!k.count++) { k.j = x.j; k.D = x.D; } }
  for (u32 t = 0; t < 200; t++) {
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); if (t > 1 && dt > 60) break; u32 done = 0, open = 0; for (auto &k : kn) if (k.second.dep && k.second.mism) done++; else open++; if (!open || (done >= 12 && t > 1)) break;
    auto lenPt = [&](u32 tg) { u32 pt = hash64(t * 131 + tg) % LPTS.size(); auto it = kn.find(tg - 1); if (tg && it != kn.end() && t % 4) for (u32 k = 0; k < LPTS.size(); k++) if (lHas(it->second.D, (pt + k) % LPTS.size())) return (u32)((pt + k) % LPTS.size()); return pt; };
    auto changed = [&](u32 tg) { return tg && (hash64(t * 7919 + tg) >> 7 & 1); };
    std::vector<std::pair<size_t, u64>> again;
    auto eval = [&](u32 s, BEval &e) { e.gseed = t; e.dense = mixed.size() > 64; e.make = [&, s](u32 tg) { u32 pt = lenPt(tg); if (s && changed(tg) && LPTS.size() > 1) pt = (pt + 1 + t) % LPTS.size(); return new Eval(pt, hash64(t * 977 + tg + (s && changed(tg) ? 5000000 : 0))); }; };
    auto wit = [&](BEval &e, const Mixed &x, u64 d) { return "packet length " + std::to_string(x.sym ? LPTS[lenPt(x.lane + 1)] : x.fixedL) + ", control word " + hexKey(*e.get(x.lane + 1), __builtin_ctzll(d)); };
    { BEval e; eval(0, e);
      for (size_t i = 0; i < mixed.size(); i++) {
        auto &x = mixed[i]; auto &k = kn[x.lane]; u32 tag = x.lane + 1, pt = lenPt(tag); if ((k.dep && k.mism && (k.out || x.sym)) || !lHas(x.D, pt)) continue;
        e.garb = false; u64 v = e.bit(x.x); if (e.garb) continue; u64 w = e.get(tag)->poly(x.want);
        if (v != w) { if (!k.mism) { k.mism = true; k.wit = wit(e, x, v ^ w); } if (outside(x.sym ? LPTS[pt] : x.fixedL, x.j)) k.out = true; }
        if (!k.dep && !changed(tag)) again.push_back({i, v});
      } }
    BEval e; eval(1, e);
    for (auto &a : again) { auto &x = mixed[a.first]; auto &k = kn[x.lane]; if (k.dep) continue; e.garb = false; u64 v = e.bit(x.x); if (v != a.second && !e.garb) { k.dep = true; k.dwit = wit(e, x, v ^ a.second); } }
  }
  for (u32 pass = 0; pass < 2; pass++) for (auto &x : kn) if (x.second.dep == !pass) {
    auto &k = x.second; std::string ls = lText(k.D), at = "byte " + std::to_string(k.j);
    R.add("foreign", x.first, k.j, k.dwit, ls, k.dep, at + (k.dep ? " depends on another packet" : " may depend on another packet")); for (auto &d : R.diffs) if (d.lane == x.first && d.kind == "foreign") d.count = k.count;
    if (k.mism) R.add("value", x.first, k.j, k.wit, ls, true, at); if (k.out) R.add("outside", x.first, k.j, k.wit, ls, true, at);
  }
  mixed.clear();
}

// what the result looks like at sample inputs: equal signatures, equal sampled behaviour
static std::string signature(const std::vector<Bit> &b, u64 from, u64 to, u32 pt, u32 tag) {
  u64 h = 1; Eval &e = evalAt(pt, 4242);
  for (u64 i = from * 8; i < to * 8 && i < b.size(); i++) { Bit x = b[i]; u64 v; if (x != UNINIT && bPoly(x) && (!bTag(x) || bTag(x) == tag || tag == ~0u)) v = lHas(pG(bId(x)), pt) ? 0xdead : e.poly(bId(x)); else v = 0xbad; h = hash64(h ^ v) * 31 + i; }
  char buf[20]; snprintf(buf, 20, "%016llx", (unsigned long long)h); return buf;
}
static bool matches(const std::vector<Bit> &b, const std::vector<Byte8> &want, u64 to, u32 pt, u32 tag) {
  Eval &e = evalAt(pt, 4242);
  for (u64 i = 0; i < to * 8 && i < b.size(); i++) { Bit x = b[i]; if (x == UNINIT || !bPoly(x) || (bTag(x) && bTag(x) != tag) || lHas(pG(bId(x)), pt)) return false; if (e.poly(bId(x)) != e.poly(want[i / 8][i % 8])) return false; }
  return true;
}
struct Layout { u64 dsize, ddata, dlen, maxlen; };
static u64 probe(Module &m, const char *n) { auto it = m.gidx.find(n); if (it == m.gidx.end()) throw Unsupported(std::string("layout fact ") + n + " missing"); auto &g = m.g[it->second]; u64 v = 0; for (int i = 0; i < 8; i++) v |= (u64)g.bytes[m.big ? 7 - i : i] << (8 * i); return v; }
static Layout layout(Module &m) { return {probe(m, "vprobe_desc_size"), probe(m, "vprobe_desc_data"), probe(m, "vprobe_desc_len"), probe(m, "vprobe_max_len")}; }
static int newCw(Interp &ip, const std::array<Poly, 64> &key) {
  int c = ip.newObj("the control word", O_CW, 8, 1); for (u32 i = 0; i < 64; i++) ip.o[c].b[i] = mk(0, key[i]); ip.o[c].ro = true; ip.o[c].roWhat = "the caller's control word"; ip.o[c].charOnly = true; return c;
}
static Val ptrTo(Interp &ip, int o) { Val v = vPtr(o, 0); v.n = ip.m.ptrbits; return v; }
static void put(Obj &ob, Module &m, u64 off, u32 bytes, const BV &v) { for (u32 i = 0; i < bytes; i++) { u64 at = off + (m.big ? bytes - 1 - i : i); for (u32 k = 0; k < 8; k++) ob.b[at * 8 + k] = v[i * 8 + k]; } }

extern void traceLike(const char *, u32);
static void doBatch(Module &m, const Opts &o, Report &R) {
  Layout ly = layout(m); bool enc = str(o, "dir") == "enc"; u64 M = num(o, "M", 184); u32 n = num(o, "n", 1); std::string ls = str(o, "L", "sym"); bool sym = ls == "sym";
  std::vector<u64> Ls; u32 nbytes = 208;
  if (sym) { std::vector<u64> pts; for (u64 i = 0; i <= 200; i++) pts.push_back(i); for (u64 x : {208ull, 255ull, 256ull, 257ull, 264ull, 511ull, 512ull, 1024ull, 4096ull, 32767ull, 32768ull, 65535ull, 65536ull, 65544ull, 65720ull, 1048576ull, 0x1000008ull, 0x7ffffff8ull, 0x7fffffffull, 0x80000000ull, 0x80000008ull, 0x800000b8ull, 0x80000100ull, 0xfffffff0ull, 0xfffffff8ull, 0xffffffffull}) if (m.ptrbits > 32 || x < 0x80000000ull) pts.push_back(x); lInit(pts); }
  else { Ls = list(ls); lInit({0}); while (Ls.size() < n) Ls.push_back(Ls[Ls.size() % list(ls).size()]); for (u64 L : Ls) if (L + 8 > nbytes && L < 100000) nbytes = L + 8; }
  bitsReset();
  Spec sp; sp.inputs(sym, nbytes, 0); std::map<u64, std::vector<Byte8>> want;
  if (sym) { sp.build(enc, M); } else for (u32 i = 0; i < n; i++) if (!want.count(Ls[i])) { sp.fixed = Ls[i]; sp.build(enc, M); want[Ls[i]] = sp.out; }
  Interp ip(m); bitsBudget(40000000ull + 1500000ull * (sym ? std::min<u64>(M, 400) : nbytes)); int cw = newCw(ip, sp.key); EXPAND = true; FOLD_EPOCH++; u32 nSpec = ATOMS.size(); TRACE = getenv("VENG_TRACE");
  ip.fuel = num(o, "fuel", 300000 * (std::min<u64>(M, 256) + 16) * (num(o, "prior", 0) ? 2 : 1));   // the library needs less than 23000 for each of them
  ip.stopDataLoop = num(o, "dl", 0);
  if (sym) ip.maxLenRounds = 16 * (std::min<u64>(M, 256) + 64) * (n + 1);
  auto finish = [&]() {
    R.n["steps"] = ip.steps; R.n["loads"] = ip.nLoads; R.n["stores"] = ip.nStores; R.n["branches"] = ip.nBranches; R.n["symbolic_branches"] = ip.nDiv; R.n["lookups"] = ip.nLut; R.n["accesses"] = ip.nAcc; R.n["blocks"] = ip.visited.size(); R.n["functions"] = ip.funcsSeen.size(); R.n["calls"] = ip.nCalls;
  };
  struct Fin { std::function<void()> f; ~Fin() { f(); } } fin{finish};
  std::vector<Event> &ev = ip.ev; struct Dump { Report &R; Interp &ip; ~Dump() {
    std::string s = "["; bool first = true; for (auto &e : ip.ev) { if (!first) s += ","; first = false; s += "{\"kind\":" + esc(e.kind) + ",\"where\":" + esc(e.where) + ",\"text\":" + esc(e.text) + ",\"witness\":" + esc(e.witness) + ",\"lens\":" + esc(lText(e.set)) + ",\"first\":" + std::to_string(lFirst(e.set) < 0 ? -1 : (i64)LPTS[lFirst(e.set)]) + ",\"confirmed\":" + (e.confirmed ? "true" : "false") + ",\"count\":" + std::to_string(e.count) + "}"; } R.extra.push_back({"events", s + "]"});
    std::string q = "["; first = true; for (auto &f : ip.funcsSeen) { if (!first) q += ","; first = false; q += esc(f); } R.extra.push_back({"functions_seen", q + "]"}); 
    std::string x = "["; first = true; std::set<std::pair<std::string, std::string>> es(ip.extCalls.begin(), ip.extCalls.end()); for (auto &e : es) { if (!first) x += ","; first = false; x += "[" + esc(e.first) + "," + esc(e.second) + "]"; } R.extra.push_back({"ext_calls", x + "]"}); 
    std::string g = "["; first = true; for (auto &ob : ip.o) if (ob.kind == O_GLOBAL && ob.dirty) { if (!first) g += ","; first = false; g += esc(ob.name); } R.extra.push_back({"globals_written", g + "]"}); } } dump{R, ip};
  (void)ev;
  // key context
  Val key = ip.call("dvbcsa_bs_key_alloc", {}); if (key.k != Val::PTR || !key.obj) { R.status = "stop"; R.why = "key allocation gives no block"; return; }
  int ko = key.obj; std::vector<Bit> old;
  if (num(o, "old", 0)) for (u64 i = 0; i < ip.o[ko].size * 8; i++) if (ip.o[ko].b[i] == UNINIT) ip.o[ko].b[i] = mk(0, pBase("old" + std::to_string(i)));
  ip.call("dvbcsa_bs_key_set", {ptrTo(ip, cw), key});
  if (!ip.mask) { R.status = "stop"; R.why = "key setting does not return"; return; }
  if (ip.mmxDirty) R.add("mmx", 0, 0, ip.mmxWhere, "", true, "dvbcsa_bs_key_set returns with MMX state in use");
  for (auto &b : ip.o[cw].b) b = mk(0, pBase("later control word contents")); ip.o[cw].dead = true; ip.o[cw].name = "the caller's control word";
  ip.o[ko].ro = true; ip.o[ko].roWhat = "the key context"; for (auto &ob : ip.o) if (ob.kind == O_GLOBAL && !ob.ro) { }
  // an earlier call with other packets
  if (u32 np = num(o, "prior", 0)) {
    int d = ip.newObj("the descriptor array of the earlier call", O_DESC, (np + 1) * ly.dsize, m.ptrbits / 8);
    for (u32 i = 0; i < np; i++) {
      int p = ip.newObj("payload of packet " + std::to_string(i) + " of the earlier call", O_PAYLOAD, 13, 1); Obj &po = ip.o[p]; po.tag = n + 1 + i; po.charOnly = true;
      for (u64 j = 0; j < 13; j++) for (u32 b = 0; b < 8; b++) po.b[j * 8 + b] = mk(n + 1 + i, pDefined(sp.pay[j][b]));
      Val pv = vPtr(p, 0); pv.n = m.ptrbits; ip.o[d].ptrs[(i64)(i * ly.dsize + ly.ddata)] = pv; BV L(32); for (u32 b = 0; b < 32; b++) L[b] = 13 >> b & 1; put(ip.o[d], m, i * ly.dsize + ly.dlen, 4, L);
    }
    Val z = vPtr(0, 0); z.n = m.ptrbits; ip.o[d].ptrs[(i64)(np * ly.dsize + ly.ddata)] = z;
    ip.call(str(o, "pdir", enc ? "enc" : "dec") == "enc" ? "dvbcsa_bs_encrypt" : "dvbcsa_bs_decrypt", {key, ptrTo(ip, d), vConst(16, 32)});
    if (!ip.mask) { R.status = "aborted"; R.why = "earlier call"; return; }
    ip.o[d].dead = true;
  }
  // descriptors
  int d = ip.newObj("the descriptor array", O_DESC, (n + 1) * ly.dsize, m.ptrbits / 8); std::vector<int> pay;
  for (u32 i = 0; i < n; i++) {
    int p = ip.newObj("payload of packet " + std::to_string(i), O_PAYLOAD, sym ? ~0ull : Ls[i], 1, nbytes); Obj &po = ip.o[p]; po.tag = i + 1; po.lsize = sym; po.charOnly = true; pay.push_back(p);
    for (u64 j = 0; j < po.tracked; j++) for (u32 b = 0; b < 8; b++) po.b[j * 8 + b] = mk(i + 1, sp.pay[j][b]);
    Val pv = vPtr(p, 0); pv.n = m.ptrbits; ip.o[d].ptrs[(i64)(i * ly.dsize + ly.ddata)] = pv;
    BV L(32); if (sym) { for (u32 b = 0; b < 32; b++) { LSet s = lWhere([&](u64 x) { return x >> b & 1; }); L[b] = mk(i + 1, pLen(s)); } } else for (u32 b = 0; b < 32; b++) L[b] = Ls[i] >> b & 1;
    put(ip.o[d], m, i * ly.dsize + ly.dlen, 4, L);
  }
  { Val z = vPtr(0, 0); z.n = m.ptrbits; ip.o[d].ptrs[(i64)(n * ly.dsize + ly.ddata)] = z; }
  ip.o[d].ro = true; ip.o[d].roWhat = "the caller's packet descriptors";
  std::string Ms = str(o, "Mbits"); BV mb(32); Val Mv;
  if (!Ms.empty()) { for (u32 b = 0; b < 32; b++) { char c = Ms[31 - b]; mb[b] = c == 'x' ? mk(0, pBase("maxlen bit " + std::to_string(b))) : c == '1'; } Mv = vBits(std::move(mb)); } else Mv = vConst(M, 32);
  ip.stopAtPayload = !Ms.empty();
  u32 nb = ip.ev.size(); size_t extBefore = ip.extCalls.size();
  ip.call(enc ? "dvbcsa_bs_encrypt" : "dvbcsa_bs_decrypt", {key, ptrTo(ip, d), Mv});
  if (ip.stopAtPayload && ip.mask) ip.event("returned", "the call returns", ip.mask);
  R.n["returned"] = ip.mask == 1; R.n["returned_sometimes"] = ip.mask != 0; R.n["payload_touched"] = 0; for (int p : pay) if (ip.o[p].touched) R.n["payload_touched"]++;
  R.n["aborted_always"] = ip.aborted == 1; R.n["ext_in_call"] = ip.extCalls.size() - extBefore; (void)nb;
  R.n["lanes"] = n; { std::string s = "["; for (u32 i = 0; i < n; i++) if (!ip.o[pay[i]].written) s += (s.size() > 1 ? "," : "") + std::to_string(i); R.extra.push_back({"unwritten", s + "]"}); }
  if (ip.mmxDirty && ip.mask) R.add("mmx", 0, 0, ip.mmxWhere, "", true, std::string("dvbcsa_bs_") + (enc ? "encrypt" : "decrypt") + " returns with MMX state in use");
  if (!ip.mask) { R.status = "aborted"; return; }
  if (TRACE) { if (getenv("VENG_LIKE")) traceLike(getenv("VENG_LIKE"), 24); traceMisses(0, nSpec); fprintf(stderr, "expansions %llu hits %llu\n", (unsigned long long)N_EXPAND, (unsigned long long)N_EXPAND_HIT); }
  for (u32 i = 0; i < n; i++) {
    Obj &po = ip.o[pay[i]]; auto outside = [&](u64 L) { return [L, M](u64 j) { u64 eff = std::min(L, M); return eff < 8 || j >= eff; }; }; (void)outside;
    for (u32 j = 0; j < nbytes; j++) {
      if (!sym && j >= Ls[i]) break; LSet D = sym ? sp.longer(j) : 1;
      for (u32 b = 0; b < 8; b++) cmpBit(R, ip, po.b[j * 8 + b], sym ? sp.out[j][b] : want[Ls[i]][j][b], D, i, j, b, [&](u64 L) { u64 eff = std::min(L, M); return eff < 8 || j >= eff; }, sym ? 0 : Ls[i], sym);
    }
  }
  cmpMixed(R, [&](u64 L, u64 j) { u64 eff = std::min(L, M); return eff < 8 || j >= eff; });
  bool bad = false; for (auto &x : R.diffs) if (x.confirmed) bad = true;
  if (bad) {
    std::vector<u64> pts{8, 9, 15, 16, 17, 20, 23, 24, 31, 40, 100, 183, 184, 200, 256, 264, 65536, 65720, 0x1000008, 0x7fffffff, 0x80000000ull, 0x80000008ull, 0xffffffffull}; std::string s = "{";
    for (u32 i = 0; i < n; i++) {
      s += std::string(i ? "," : "") + "\"" + std::to_string(i) + "\":{"; bool first = true;
      for (u32 k = 0; k < LPTS.size(); k++) { u64 L = sym ? LPTS[k] : Ls[i]; if (sym && std::find(pts.begin(), pts.end(), L) == pts.end()) continue; u64 eff = std::min(std::min(L, M), (u64)nbytes); s += std::string(first ? "" : ",") + "\"" + std::to_string(L) + "\":[" + std::to_string(eff) + "," + esc(signature(ip.o[pay[i]].b, 0, eff, k, i + 1)) + "," + esc(signature(ip.o[pay[i]].b, eff, std::min(L, (u64)nbytes), k, i + 1)) + "," + (matches(ip.o[pay[i]].b, sym ? sp.out : want[Ls[i]], std::min(L, (u64)nbytes), k, i + 1) ? "true" : "false") + "]"; first = false; }
      s += "}";
    }
    R.extra.push_back({"sigs", s + "}"});
  }
}

static void dumpEvents(Report &R, Interp &ip) {
  std::string s = "["; bool first = true; for (auto &e : ip.ev) { if (!first) s += ","; first = false; s += "{\"kind\":" + esc(e.kind) + ",\"where\":" + esc(e.where) + ",\"text\":" + esc(e.text) + ",\"witness\":" + esc(e.witness) + ",\"confirmed\":" + (e.confirmed ? "true" : "false") + ",\"count\":" + std::to_string(e.count) + "}"; } R.extra.push_back({"events", s + "]"});
  std::string q = "["; first = true; for (auto &f : ip.funcsSeen) { if (!first) q += ","; first = false; q += esc(f); } R.extra.push_back({"functions_seen", q + "]"});
  std::string x = "["; first = true; std::set<std::pair<std::string, std::string>> es(ip.extCalls.begin(), ip.extCalls.end()); for (auto &e : es) { if (!first) x += ","; first = false; x += "[" + esc(e.first) + "," + esc(e.second) + "]"; } R.extra.push_back({"ext_calls", x + "]"});
  std::string g = "["; first = true; for (auto &ob : ip.o) if (ob.kind == O_GLOBAL && ob.dirty) { if (!first) g += ","; first = false; g += esc(ob.name); } R.extra.push_back({"globals_written", g + "]"});
  R.n["steps"] += ip.steps; R.n["loads"] += ip.nLoads; R.n["stores"] += ip.nStores; R.n["branches"] += ip.nBranches; R.n["lookups"] += ip.nLut; R.n["accesses"] += ip.nAcc; R.n["blocks"] = std::max<u64>(R.n["blocks"], ip.visited.size()); R.n["functions"] = std::max<u64>(R.n["functions"], ip.funcsSeen.size());
}

// single-packet interface at each length of a list; the result is compared with the specification
static void doSingle(Module &m, const Opts &o, Report &R) {
  bool enc = str(o, "dir") == "enc"; std::vector<u64> Ls = list(str(o, "L")); u64 mx = 0; for (u64 L : Ls) mx = std::max(mx, L);
  lInit({0}); bitsReset(); Spec sp; sp.inputs(false, mx + 8, 0);
  Interp ip(m); ip.stopDataLoop = num(o, "dl", 0); struct Dump { Report &R; Interp &ip; ~Dump() { dumpEvents(R, ip); } } dump{R, ip};
  int cw = newCw(ip, sp.key);
  EXPAND = true;
  Val key = ip.call("dvbcsa_key_alloc", {}); if (key.k != Val::PTR || !key.obj) { R.status = "stop"; R.why = "key allocation gives no block"; return; }
  int ko = key.obj; if (num(o, "old", 0)) for (u64 i = 0; i < ip.o[ko].size * 8; i++) if (ip.o[ko].b[i] == UNINIT) ip.o[ko].b[i] = mk(0, pBase("old" + std::to_string(i)));
  ip.call("dvbcsa_key_set", {ptrTo(ip, cw), key}); if (!ip.mask) { R.status = "stop"; R.why = "key setting does not return"; return; }
  for (auto &b : ip.o[cw].b) b = mk(0, pBase("later control word contents")); ip.o[cw].dead = true; ip.o[ko].ro = true; ip.o[ko].roWhat = "the key context";
  std::string per = "[", sigs = "{";
  for (u64 L : Ls) {
    bitsBudget(12000000ull + 1600000ull * L); sp.fixed = L; sp.build(enc, ~0ull);
    int p = ip.newObj("the payload", O_PAYLOAD, L, 1); Obj &po = ip.o[p]; po.tag = 1; po.charOnly = true;
    for (u64 j = 0; j < L; j++) for (u32 b = 0; b < 8; b++) po.b[j * 8 + b] = mk(1, sp.pay[j][b]);
    u64 s0 = ip.steps; size_t e0 = ip.extCalls.size();
    ip.call(enc ? "dvbcsa_encrypt" : "dvbcsa_decrypt", {key, ptrTo(ip, p), vConst(L, 32)});
    R.n["ext_in_call"] += ip.extCalls.size() - e0; per += (per.size() > 1 ? "," : "") + std::string("[") + std::to_string(L) + "," + std::to_string(ip.steps - s0) + "]";
    if (ip.mask != 1) { R.status = "aborted"; R.why = "length " + std::to_string(L); return; }
    if (ip.mmxDirty) R.add("mmx", 0, 0, ip.mmxWhere, "", true, "single-packet call returns with MMX state in use");
    for (u64 j = 0; j < L; j++) for (u32 b = 0; b < 8; b++) cmpBit(R, ip, ip.o[p].b[j * 8 + b], sp.out[j][b], 1, 0, j, b, [&](u64) { return L < 8; }, L, false);
    if (R.diffs.size()) sigs += std::string(sigs.size() > 1 ? "," : "") + "\"" + std::to_string(L) + "\":[" + std::to_string(L) + "," + esc(signature(ip.o[p].b, 0, L, 0, 1)) + ",\"\"," + (matches(ip.o[p].b, sp.out, L, 0, 1) ? "true" : "false") + "]";
    Obj &q = ip.o[p]; q.b.clear(); q.b.shrink_to_fit(); q.dead = true; R.n["lengths"]++;
  }
  R.extra.push_back({"steps_per_length", per + "]"}); if (sigs.size() > 1) R.extra.push_back({"sigs", sigs + "}"});
}
// both directions one after the other, evaluated at sample inputs (a witness search, used when both differ from DVB-CSA)
static void doRound(Module &m, const Opts &o, Report &R) {
  std::vector<u64> Ls = list(str(o, "L")); u64 mx = 0; for (u64 L : Ls) mx = std::max(mx, L);
  lInit({0}); bitsReset(); Spec sp; sp.inputs(false, mx + 8, 0); Interp ip(m); struct Dump { Report &R; Interp &ip; ~Dump() { dumpEvents(R, ip); } } dump{R, ip};
  int cw = newCw(ip, sp.key); EXPAND = true;
  Val key = ip.call("dvbcsa_key_alloc", {}); if (key.k != Val::PTR || !key.obj) { R.status = "stop"; return; }
  ip.call("dvbcsa_key_set", {ptrTo(ip, cw), key}); if (!ip.mask) { R.status = "stop"; return; }
  for (u64 L : Ls) {
    sp.fixed = L; bitsBudget(24000000ull + 3200000ull * L); std::vector<Bit> res[2];
    for (u32 e = 0; e < 2; e++) {
      sp.build(e, ~0ull); int p = ip.newObj("the payload", O_PAYLOAD, L, 1); Obj &po = ip.o[p]; po.tag = 1; po.charOnly = true; for (u64 j = 0; j < L; j++) for (u32 b = 0; b < 8; b++) po.b[j * 8 + b] = mk(1, sp.pay[j][b]);
      ip.call(e ? "dvbcsa_encrypt" : "dvbcsa_decrypt", {key, ptrTo(ip, p), vConst(L, 32)}); if (ip.mask != 1) { R.status = "aborted"; return; } res[e] = ip.o[p].b;
    }
    auto val = [&](Eval &e, Bit x, bool &g) -> u64 { if (x == UNINIT || !bPoly(x) || pG(bId(x))) { g = true; return 0; } return e.poly(bId(x)); };
    for (u32 first = 0; first < 2; first++) {
      Eval a(0, 31337), b(0, 31337); bool g = false;
      for (u64 i = 0; i < L * 8; i++) b.fixed["p" + std::to_string(i / 8) + "." + std::to_string(i % 8)] = val(a, res[first][i], g);
      for (u64 i = 0; i < L * 8; i++) { u64 v = val(b, res[1 - first][i], g) ^ val(a, mk(1, sp.pay[i / 8][i % 8]), g); R.n["compared"]++; if (g) { R.add("garbage", 0, i / 8, "", "length " + std::to_string(L), true, "result rests on memory that was never written"); break; } if (v) { u32 q = __builtin_ctzll(v); R.add("round", 0, i / 8, "length " + std::to_string(L) + ", control word " + hexKey(a, q) + ", payload " + hexPay(a, q, L), "length " + std::to_string(L), true, first ? "encryption followed by decryption does not give the payload back" : "decryption followed by encryption does not give the payload back"); break; } }
    }
  }
}

// The result of a call after many histories of key settings, all ending with the same control word.
static void doHist(Module &m, const Opts &o, Report &R) {
  bool bs = str(o, "api") == "bs", enc = str(o, "dir") == "enc"; u64 L = num(o, "L", 17), M = bs ? num(o, "M", 16) : ~0ull;
  lInit({0}); bitsReset(); Spec sp; sp.inputs(false, L + 8, 0); sp.fixed = L; sp.build(enc, M);
  Interp ip(m); struct Dump { Report &R; Interp &ip; ~Dump() { dumpEvents(R, ip); } } dump{R, ip}; EXPAND = true; FOLD_EPOCH++;
  u64 budget = 60000000; bitsBudget(budget); Layout ly{}; if (bs) ly = layout(m);
  std::string pre = bs ? "dvbcsa_bs_" : "dvbcsa_"; u32 serial = 0;
  typedef std::array<Poly, 64> CW; auto fresh = [&](const char *w, u32 i) { return pBase(std::string(w) + std::to_string(serial) + "." + std::to_string(i)); };
  std::set<Bit> raw;                               // what allocated memory holds at first
  auto alloc = [&]() { Val k = ip.call(pre + "key_alloc", {}); if (!ip.mask || k.k != Val::PTR || !k.obj) throw Stop("key allocation gives no block"); serial++; Obj &ob = ip.o[k.obj]; for (u64 i = 0; i < ob.b.size(); i++) if (ob.b[i] == UNINIT) { ob.b[i] = mk(0, fresh("memory", i)); raw.insert(ob.b[i]); } return k; };
  auto set = [&](const Val &k, const CW &c) { int cw = newCw(ip, c); ip.call(pre + "key_set", {ptrTo(ip, cw), k}); if (!ip.mask) throw Stop("key setting does not return"); for (auto &b : ip.o[cw].b) b = mk(0, pBase("later control word contents")); ip.o[cw].dead = true; };
  auto use = [&](const Val &k, bool e, u64 len, std::vector<Bit> *out) {
    int p = ip.newObj("the payload", O_PAYLOAD, len, 1); { Obj &po = ip.o[p]; po.tag = 1; po.charOnly = true; for (u64 j = 0; j < len * 8; j++) po.b[j] = mk(1, sp.pay[j / 8][j % 8]); }
    if (!bs) ip.call(e ? "dvbcsa_encrypt" : "dvbcsa_decrypt", {k, ptrTo(ip, p), vConst(len, 32)});
    else { int d = ip.newObj("the descriptor array", O_DESC, 2 * ly.dsize, m.ptrbits / 8); ip.o[d].ptrs[(i64)ly.ddata] = ptrTo(ip, p); ip.o[d].ptrs[(i64)(ly.dsize + ly.ddata)] = ptrTo(ip, 0); BV l(32); for (u32 b = 0; b < 32; b++) l[b] = len >> b & 1; put(ip.o[d], m, ly.dlen, 4, l); ip.call(e ? "dvbcsa_bs_encrypt" : "dvbcsa_bs_decrypt", {k, ptrTo(ip, d), vConst(M, 32)}); ip.o[d].dead = true; ip.o[d].b.clear(); ip.o[d].ptrs.clear(); }
    if (!ip.mask) throw Stop("the call does not return"); if (out) *out = ip.o[p].b; ip.o[p].dead = true; ip.o[p].b.clear();
  };
  auto done = [&](const Val &k) { ip.call(pre + "key_free", {k}); };
  auto flip = [&](u32 i) { CW c = sp.key; c[i] = pXor(c[i], 1); return c; };
  auto byteFresh = [&](u32 k) { CW c = sp.key; for (u32 b = 0; b < 8; b++) c[k * 8 + b] = fresh("earlier", k * 8 + b); return c; };
  auto allFresh = [&]() { CW c; for (u32 i = 0; i < 64; i++) c[i] = fresh("earlier", i); return c; };
  auto zero = [&]() { CW c; c.fill(0); return c; };
  std::vector<Bit> base, ctx; { Val k = alloc(); set(k, sp.key); ctx = ip.o[k.obj].b; use(k, enc, L, &base); done(k); }
  // a context with the same contents gives the same result, unless the library keeps state elsewhere; bits that were never written without the history play no part in it
  auto t0 = std::chrono::steady_clock::now();
  auto same = [&](const Val &k) { u32 c = 0; for (auto &d : R.diffs) if (d.confirmed) c += d.count; if (c > 3 || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 120) { R.n["histories_not_run"]++; return true; } auto &ob = ip.o[k.obj]; if (ob.b.size() != ctx.size() || ob.ptrs.size()) return false; for (auto &g : ip.o) if (g.kind == O_GLOBAL && g.dirty) return false; for (u64 i = 0; i < ctx.size(); i++) if (ob.b[i] != ctx[i] && ctx[i] != UNINIT && !raw.count(ctx[i])) return false; R.n["same_context"]++; R.n["histories"]++; R.n["compared"] += ctx.size(); R.n["proved"] += ctx.size(); return true; };
  typedef std::vector<Bit> Mem; auto fill = [&](const Val &k, const std::function<Bit(u64)> &f) { Obj &ob = ip.o[k.obj]; for (u64 i = 0; i < ob.b.size(); i++) if (raw.count(ob.b[i])) ob.b[i] = f(i); };
  auto check = [&](const std::string &what, const std::vector<Bit> &r) {
    R.n["histories"]++; bool und = false;
    for (u64 i = 0; i < L * 8; i++) {
      R.n["compared"]++; if (r[i] == base[i]) { R.n["proved"]++; continue; }
      auto bad = [&](Bit x) { return x == UNINIT || bTag(x) >= T_X || pG(bId(x)); };
      if (bad(base[i])) continue;                                          // unusable without any history: not a matter of history
      if (bad(r[i])) { R.add("history", 0, i / 8, what, "", true, "byte " + std::to_string(i / 8) + " rests on memory that was never written, " + what); return; }
      Poly a = pResolve(bId(r[i])), b = pResolve(bId(base[i])); if (a == b) { R.n["proved"]++; continue; }
      bool hit = false; for (u32 s = 0; s < 6 && !hit; s++) { Eval &e = evalAt(0, hash64(s + 7)); u64 v = e.poly(a) ^ e.poly(b); if (v) { hit = true; R.add("history", 0, i / 8, "length " + std::to_string(L) + ", control word " + hexKey(e, __builtin_ctzll(v)) + ", " + what, "", true, "byte " + std::to_string(i / 8) + " differs from the result without that history: " + what); } }
      if (hit) return; if (!und) { und = true; R.n["undecided"]++; R.add("undecided", 0, i / 8, what, "", false, "byte " + std::to_string(i / 8) + ", " + what); }
    }
  };
  // the same context, set before
  auto before = [&](const std::string &what, std::vector<CW> cws, bool uses) {
    serial++; bitsBudget(budget); Val k = alloc(); for (auto &c : cws) { set(k, c); if (uses) { use(k, false, L, nullptr); use(k, true, L, nullptr); } } set(k, sp.key); std::vector<Bit> r; if (same(k)) { done(k); return; } budget = 4000000; bitsBudget(budget); use(k, enc, L, &r); done(k); check(what, r);
  };
  for (u32 rot = 0; rot < 8; rot += 4) { bitsBudget(budget); Val k = alloc(); fill(k, [&](u64 i) { return mk(0, sp.key[(i + rot * 8) % 64]); }); set(k, sp.key); std::vector<Bit> r; if (same(k)) { done(k); continue; } budget = 4000000; bitsBudget(budget); use(k, enc, L, &r); done(k); check("its memory held copies of the control word", r); }
  // memory that held an earlier context
  auto recycled = [&](const std::string &what, const CW &c) {
    serial++; bitsBudget(budget); Val q = alloc(); set(q, c); Mem mem = ip.o[q.obj].b; done(q);
    Val k = alloc(); fill(k, [&](u64 i) { return i < mem.size() ? mem[i] : UNINIT; }); set(k, sp.key); std::vector<Bit> r; if (same(k)) { done(k); return; } budget = 4000000; bitsBudget(budget); use(k, enc, L, &r); done(k); check(what, r);
  };
  recycled("its memory held a freed context set to the same control word", sp.key); for (u32 i = 0; i < 8; i++) { serial++; recycled("its memory held a freed context whose control word differs in byte " + std::to_string(i), byteFresh(i)); }
  serial++; recycled("its memory held a freed context", allFresh()); recycled("its memory held a freed context set to the zero control word", zero());
  for (u32 one = 0; one < 2; one++) { bitsBudget(budget); Val k = alloc(); fill(k, [&](u64) { return (Bit)one; }); set(k, sp.key); std::vector<Bit> r; if (same(k)) { done(k); continue; } budget = 4000000; bitsBudget(budget); use(k, enc, L, &r); done(k); check(one ? "its memory was filled with ones" : "its memory was filled with zeros", r); }
  for (u32 i = 0; i < 8; i++) { serial++; before("the context was set to a control word differing in byte " + std::to_string(i) + " before", {byteFresh(i)}, false); }
  serial++; before("the context was set to another control word before", {allFresh()}, false);
  before("the context was set to the zero control word before", {zero()}, true); { CW c; for (u32 i = 0; i < 64; i++) c[i] = 0x6df0329be4a75118ull >> i & 1; before("the context was set to a fixed control word and used before", {c}, true); before("the context was set to the same control word and a fixed one before", {sp.key, c}, false); }
  before("the context was set to the same control word before", {sp.key}, true);
  { serial++; CW a = allFresh(); before("the context was set to the same control word, then to another one before", {sp.key, a}, false); before("the context was set to another control word twice before", {a, a}, false); serial++; before("the context was set to the same control word and then to one differing in byte 0", {sp.key, byteFresh(0)}, false); }
  // another context, set before or in between
  auto other = [&](const std::string &what, std::vector<CW> cws, bool first, bool fin) {
    serial++; bitsBudget(budget); Val k = alloc(), q = alloc(); if (first) { set(k, flip(9)); } for (auto &c : cws) set(q, c); set(k, sp.key); if (fin) set(q, cws.back()); std::vector<Bit> r; if (same(k)) { done(q); done(k); return; } use(k, enc, L, &r); done(q); done(k); check(what, r);
  };
  other("another context was set to the same control word before", {sp.key}, false, false);
  other("another context was set to the same control word while this one held another", {sp.key}, true, false);
  for (u32 i = 0; i < 8; i++) { serial++; other("another context was set to a control word differing in byte " + std::to_string(i) + " before", {byteFresh(i)}, i & 1, false); }
  for (u32 i = 0; i < 64; i += 9) other("another context was set to a control word differing in one bit before", {flip(i)}, false, false);
  { serial++; CW a = allFresh(); other("another context was set to another control word between setting and use", {a}, true, true); other("another context was set to the same control word between setting and use", {sp.key}, false, true); }
  for (u32 i = 0; i < 64; i++) before("the context was set to a control word differing in bit " + std::to_string(i % 8) + " of byte " + std::to_string(i / 8) + " before", {flip(i)}, false);
}

// allocation, use and release of key contexts
static void doAlloc(Module &m, const Opts &o, Report &R) {
  bool bs = str(o, "api") == "bs", fail = num(o, "fail", 0); lInit({0}); bitsReset(); Spec sp; sp.inputs(false, 200, 0);
  Interp ip(m); ip.stopDataLoop = num(o, "dl", 0); struct Dump { Report &R; Interp &ip; ~Dump() { dumpEvents(R, ip); std::string s = "["; for (auto &a : ip.allocLog) s += (s.size() > 1 ? "," : "") + esc(a); R.extra.push_back({"allocations", s + "]"}); u64 live = 0; for (auto &ob : ip.o) if (ob.kind == O_HEAP && !ob.freed) live++; R.n["live_blocks"] = live; } } dump{R, ip};
  sp.fixed = 21; sp.build(false, 24); sp.build(true, 24); EXPAND = true; FOLD_EPOCH++;
  std::string pre = bs ? "dvbcsa_bs_key_" : "dvbcsa_key_";
  ip.allocFail = fail;
  Val key = ip.call(pre + "alloc", {}); R.n["alloc_calls"] = ip.allocLog.size();
  if (!ip.mask) { R.status = "aborted"; return; }
  bool null = key.k == Val::CONST ? key.c == 0 : key.k == Val::PTR && key.obj == 0 && key.off == 0 && !key.b; bool good = key.k == Val::PTR && key.obj > 0 && ip.o[key.obj].kind == O_HEAP && key.off == 0 && !ip.o[key.obj].freed;
  R.n["null"] = null; R.n["block"] = good;
  if (fail) {
    if (!null) R.add("alloc-result", 0, 0, "", "", true, pre + "alloc does not return null when memory cannot be obtained");
    ip.allocFail = false;
  } else {
    if (!good) { R.add("alloc-result", 0, 0, "", "", true, pre + "alloc does not return a newly allocated block"); return; }
    R.n["block_size"] = ip.o[key.obj].size; R.n["block_align"] = ip.o[key.obj].align;
    u64 live = 0; for (auto &ob : ip.o) if (ob.kind == O_HEAP && !ob.freed) live++; if (live != 1) R.add("leak", 0, 0, "", "", true, pre + "alloc keeps " + std::to_string(live) + " blocks");
    size_t a0 = ip.allocLog.size(), x0 = ip.extCalls.size();
    int cw = newCw(ip, sp.key); ip.call(pre + "set", {ptrTo(ip, cw), key}); if (!ip.mask) { R.status = "aborted"; return; }
    ip.call(pre + "set", {ptrTo(ip, cw), key}); if (!ip.mask) { R.status = "aborted"; return; }
    for (int e = 0; e < 2; e++) {
      if (!bs) { int p = ip.newObj("the payload", O_PAYLOAD, 21, 1); ip.o[p].tag = 1; ip.o[p].charOnly = true; for (u64 j = 0; j < 21 * 8; j++) ip.o[p].b[j] = mk(1, sp.pay[j / 8][j % 8]); ip.call(e ? "dvbcsa_encrypt" : "dvbcsa_decrypt", {key, ptrTo(ip, p), vConst(21, 32)}); }
      else { Layout ly = layout(m); int d = ip.newObj("the descriptor array", O_DESC, 2 * ly.dsize, m.ptrbits / 8); int p = ip.newObj("payload of packet 0", O_PAYLOAD, 21, 1); ip.o[p].tag = 1; ip.o[p].charOnly = true; for (u64 j = 0; j < 21 * 8; j++) ip.o[p].b[j] = mk(1, sp.pay[j / 8][j % 8]); ip.o[d].ptrs[(i64)ly.ddata] = ptrTo(ip, p); ip.o[d].ptrs[(i64)(ly.dsize + ly.ddata)] = ptrTo(ip, 0); BV L(32); for (u32 b = 0; b < 32; b++) L[b] = 21 >> b & 1; put(ip.o[d], m, ly.dlen, 4, L); ip.call(e ? "dvbcsa_bs_encrypt" : "dvbcsa_bs_decrypt", {key, ptrTo(ip, d), vConst(24, 32)}); }
      if (!ip.mask) { R.status = "aborted"; return; }
    }
    R.n["alloc_elsewhere"] = ip.allocLog.size() - a0; for (size_t i = x0; i < ip.extCalls.size(); i++) if (ip.extCalls[i].first == "free" || ip.extCalls[i].first == "_mm_free") R.n["alloc_elsewhere"]++;
    if (bs) { Val s = ip.call("dvbcsa_bs_batch_size", {}); (void)s; }
    size_t f0 = ip.extCalls.size(); ip.call(pre + "free", {key}); if (!ip.mask) { R.status = "aborted"; return; }
    if (!ip.o[key.obj].freed) R.add("leak", 0, 0, "", "", true, pre + "free does not release the context");
    R.n["free_calls"] = ip.extCalls.size() - f0;
  }
  ip.call(pre + "free", {ptrTo(ip, 0)}); if (!ip.mask) R.status = "aborted";
}
static void doSize(Module &m, const Opts &, Report &R) {
  lInit({0}); bitsReset(); Interp ip(m); struct Dump { Report &R; Interp &ip; ~Dump() { dumpEvents(R, ip); } } dump{R, ip};
  Val v = ip.call("dvbcsa_bs_batch_size", {}); R.n["constant"] = v.isConst(); R.n["value"] = v.isConst() ? v.c : 0;
}
static void doSelf(Module &, const Opts &, Report &R) { lInit({0}); bitsReset(); std::string w; if (!specSelfCheck(w)) { R.status = "broken"; R.why = w; } }
static void doLens(const char *path, Report &R) {
  LensResult L; std::string err; if (!lensRun(path, L, err)) { R.status = "broken"; R.why = err; return; }
  R.n["instructions"] = L.instructions; R.n["sites"] = L.sites; R.n["params"] = L.params; R.n["loops"] = L.loops;
  std::string s = "["; for (auto &x : L.found) s += std::string(s.size() > 1 ? "," : "") + "{\"rule\":" + esc(x.rule) + ",\"where\":" + esc(x.where) + ",\"text\":" + esc(x.text) + ",\"api\":" + esc(x.api) + ",\"hi\":" + std::to_string(x.hi) + "}"; R.extra.push_back({"found", s + "]"});
}
static void doDeps(Module &m, const Opts &o, Report &R) {
  DepResult D; std::vector<u64> Ls = list(str(o, "L")); if (num(o, "consts", 0)) { std::set<u64> s; for (u64 c : depsConstants(m)) for (u64 b : {c, c * 8}) for (i64 d : {-8, -1, 0, 1, 7, 8, 9, 16}) if ((i64)b + d > 256 && b + d <= num(o, "consts", 0)) s.insert(b + d); Ls.insert(Ls.end(), s.begin(), s.end()); }
  depsRun(m, str(o, "dir") == "enc", Ls, num(o, "fuel", 0), D); R.status = D.status; R.why = D.why;
  R.n["steps"] = D.nsteps; R.n["accesses"] = D.accesses; R.n["compared"] = R.n["proved"] = D.bytes; R.n["lengths"] = D.lengths;
  std::string s = "[", t = "["; for (auto &f : D.found) s += (s.size() > 1 ? "," : "") + std::string("{\"rule\":") + esc(f.rule) + ",\"where\":" + esc(f.where) + ",\"text\":" + esc(f.text) + ",\"len\":" + std::to_string(f.len) + "}"; for (auto &x : D.steps) t += (t.size() > 1 ? "," : "") + std::string("[") + std::to_string(x.first) + "," + std::to_string(x.second) + "]";
  R.extra.push_back({"found", s + "]"}); R.extra.push_back({"steps_per_length", t + "]"});
}
static void doGraph(const char *path, Report &R) { std::string out, err; if (!graphRun(path, out, err)) { R.status = "broken"; R.why = err; return; } R.extra.push_back({"facts", "{" + out + "}"}); }
static void doModule(Module &m, const Opts &, Report &R) {
  std::string f = "["; for (auto &x : m.f) { if (f.size() > 1) f += ","; f += "{\"name\":" + esc(x.name) + ",\"defined\":" + (x.defined ? "true" : "false") + ",\"external\":" + (x.external ? "true" : "false") + ",\"proto\":" + esc(x.proto) + ",\"file\":" + esc(x.srcfile) + ",\"line\":" + std::to_string(x.line) + "}"; } R.extra.push_back({"functions", f + "]"});
  std::string g = "["; for (auto &x : m.g) { if (g.size() > 1) g += ","; g += "{\"name\":" + esc(x.name) + ",\"size\":" + std::to_string(x.size) + ",\"constant\":" + (x.constant ? "true" : "false") + ",\"tls\":" + (x.tls ? "true" : "false") + ",\"defined\":" + (x.defined ? "true" : "false") + ",\"written\":" + (x.written ? "true" : "false") + ",\"writer\":" + esc(x.writer) + "}"; } R.extra.push_back({"globals", g + "]"});
  R.n["instructions"] = m.ninstr;
}
int main(int argc, char **argv) {
  struct rlimit rl = {512ul << 20, 512ul << 20}; (void)rl;
  Module m; std::string err; if (!loadModule(argv[1], m, err)) { fprintf(stderr, "%s\n", err.c_str()); return 3; }
  for (int a = 2; a < argc; a++) {
    std::string j = argv[a]; Opts o; size_t p = j.find(';'); std::string kind = j.substr(0, p); while (p != std::string::npos) { size_t e = j.find(';', p + 1); std::string kv = j.substr(p + 1, e == std::string::npos ? e : e - p - 1); size_t q = kv.find('='); o[kv.substr(0, q)] = q == std::string::npos ? "1" : kv.substr(q + 1); p = e; }
    Report R; auto t0 = std::chrono::steady_clock::now(); N_BITOPS = 0; N_TERMWORK = 0; evalReset(); BADPTS.clear(); OLDMODE = num(o, "old", 0);
    try { if (kind == "batch") doBatch(m, o, R); else if (kind == "single") doSingle(m, o, R); else if (kind == "round") doRound(m, o, R); else if (kind == "deps") doDeps(m, o, R); else if (kind == "hist") doHist(m, o, R); else if (kind == "alloc") doAlloc(m, o, R); else if (kind == "size") doSize(m, o, R); else if (kind == "self") doSelf(m, o, R); else if (kind == "lens") doLens(argv[1], R); else if (kind == "graph") doGraph(argv[1], R); else if (kind == "module") doModule(m, o, R); else { R.status = "broken"; R.why = "unknown job"; } }
    catch (Unsupported &e) { R.status = "unsupported"; R.why = e.what(); } catch (Stop &e) { R.status = "stop"; R.why = e.what(); } catch (std::exception &e) { R.status = "broken"; R.why = e.what(); }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    std::string s = "{\"job\":" + esc(j) + ",\"status\":" + esc(R.status) + ",\"why\":" + esc(R.why) + ",\"seconds\":" + std::to_string(dt) + ",\"rss_mb\":" + std::to_string(ru.ru_maxrss / 1024) + ",\"bitops\":" + std::to_string(N_BITOPS) + ",\"termwork\":" + std::to_string(N_TERMWORK) + ",\"capstage\":" + std::to_string(N_CAPSTAGE) + ",\"values\":" + std::to_string(pCount()) + ",\"n\":{";
    bool first = true; for (auto &x : R.n) { if (!first) s += ","; first = false; s += esc(x.first) + ":" + std::to_string(x.second); } s += "},\"diffs\":["; first = true;
    for (auto &d : R.diffs) { if (!first) s += ","; first = false; s += "{\"kind\":" + esc(d.kind) + ",\"lane\":" + std::to_string(d.lane) + ",\"byte\":" + std::to_string(d.byte) + ",\"witness\":" + esc(d.witness) + ",\"lens\":" + esc(d.lens) + ",\"detail\":" + esc(d.detail) + ",\"confirmed\":" + (d.confirmed ? "true" : "false") + ",\"count\":" + std::to_string(d.count) + "}"; }
    s += "]"; for (auto &x : R.extra) s += "," + esc(x.first) + ":" + x.second; s += "}\n"; fputs(s.c_str(), stdout); fflush(stdout);
  }
  return 0;
}
