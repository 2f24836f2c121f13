#include "interp.h"
#include <algorithm>
#include <cstring>

static Interp *IP;
static inline u64 lowMask(u32 n) { return n >= 64 ? ~0ull : (1ull << n) - 1; }
static inline i64 sext(u64 c, u32 n) { if (n >= 64) return (i64)c; u64 s = 1ull << (n - 1); c &= lowMask(n); return (i64)((c ^ s) - s); }

// ------------------------------------------------------------------ values
Val vConst(u64 c, u32 n) { Val v; v.k = Val::CONST; v.n = n; v.c = c & lowMask(n); return v; }
Val vBits(BV &&b) {
  Val v; v.n = b.size();
  if (v.n <= 64) { bool k = true; u64 c = 0; for (u32 i = 0; i < v.n; i++) { if (b[i] > 1) { k = false; break; } c |= b[i] << i; } if (k) { v.k = Val::CONST; v.c = c; return v; } }
  v.k = Val::BITS; v.b = Ref<Buf>(new Buf); v.b->b = std::move(b); return v;
}
Val vPtr(int obj, i64 off) { Val v; v.k = Val::PTR; v.n = 64; v.obj = obj; v.off = off; return v; }
void toBV(const Val &v, BV &out) {
  switch (v.k) {
  case Val::CONST: out.resize(v.n); for (u32 i = 0; i < v.n; i++) out[i] = i < 64 ? v.c >> i & 1 : 0; return;
  case Val::BITS: out = v.b->b; return;
  case Val::PTR: IP->toAddrBits(v, out); return;
  case Val::UNSET: out.resize(v.n ? v.n : 1); for (auto &x : out) x = bFresh(); return;
  default: throw Unsupported("value used as an integer");
  }
}
static BV bv(const Val &v) { BV b; toBV(v, b); return b; }

struct VecHash { size_t operator()(const std::vector<u32> &v) const { u64 h = v.size(); for (u32 x : v) h = hash64(h * 0x9E3779B97F4A7C15ull + x); return h; } };
static std::unordered_map<std::vector<u32>, std::vector<u32>, VecHash> ptCache;
static std::unordered_map<std::vector<u32>, std::vector<u64>, VecHash> ptVals;
static void ptReset() { ptCache.clear(); ptVals.clear(); }

bool lonlyWord(const BV &v, u32 &tag, std::vector<u64> &vals) {
  if (v.size() > 64) return false; u32 t = 0;
  for (Bit b : v) { u32 x = bTag(b); if (x >= T_GT) return false; if (bId(b) >= 2) { if (t && x && t != x) return false; t |= x; if (!pLonly(bId(b)) || pG(bId(b))) return false; } }
  std::vector<u32> key(v.size()); for (u32 i = 0; i < v.size(); i++) key[i] = bId(v[i]);
  auto it = ptVals.find(key);
  if (it == ptVals.end()) {
    std::vector<u64> w(LPTS.size(), 0);
    for (u32 i = 0; i < v.size(); i++) { if (bId(v[i]) == 0) continue; LSet s = bId(v[i]) == 1 ? 1 : pLset(bId(v[i])); for (u32 k = 0; k < w.size(); k++) if (lHas(s, k)) w[k] |= 1ull << i; }
    it = ptVals.emplace(key, w).first;
  }
  vals = it->second; tag = t; return true;
}
Val fromPoints(const std::vector<u64> &vals, u32 n, u32 tag) {
  BV r(n);
  for (u32 i = 0; i < n; i++) {
    u32 ones = 0; for (u64 v : vals) ones += v >> i & 1;
    if (!ones) { r[i] = 0; continue; } if (ones == vals.size()) { r[i] = 1; continue; }
    u32 k = 0; LSet s = lWhere([&](u64) { return vals[k++] >> i & 1; }); r[i] = mk(tag, pLen(s));
  }
  return vBits(std::move(r));
}
Bit cmpPoints(const std::vector<u64> &a, u32 tag, const std::function<bool(u64)> &f) { u32 k = 0; LSet s = lWhere([&](u64) { return f(a[k++]); }); return mk(tag, pLen(s)); }

// bitwise operations with reuse of the previous result
static void bitwise(u8 op, const BV &a, const BV &b, BV &r) {
  size_t n = a.size(); r.resize(n); u64 lk = ~0ull; u32 lr = 0;
  for (size_t i = 0; i < n; i++) {
    Bit x = a[i], y = b[i];
    if (op == '^') { if (!x) { r[i] = y; continue; } if (!y) { r[i] = x; continue; } }
    else if (op == '&') { if (!x || !y) { r[i] = 0; continue; } if (x == 1) { r[i] = y; continue; } if (y == 1) { r[i] = x; continue; } }
    else { if (!x) { r[i] = y; continue; } if (!y) { r[i] = x; continue; } if (x == 1 || y == 1) { r[i] = 1; continue; } }
    u32 tx = bTag(x), ty = bTag(y);
    if (tx < T_GT && ty < T_GT && (tx == ty || !tx || !ty)) {
      u64 k = (u64)bId(x) << 32 | bId(y);
      if (k != lk) { lr = op == '^' ? pXor(bId(x), bId(y)) : op == '&' ? pAnd(bId(x), bId(y)) : pOr(bId(x), bId(y)); lk = k; }
      r[i] = mk(tx | ty, lr);
    } else r[i] = op == '^' ? bXor(x, y) : op == '&' ? bAnd(x, y) : bOr(x, y);
  }
  N_BITOPS += n;
}
static void muxBits(Bit c, const BV &a, const BV &b, BV &r) { size_t n = a.size(); r.resize(n); for (size_t i = 0; i < n; i++) r[i] = bMux(c, a[i], b[i]); N_BITOPS += n; }

// ------------------------------------------------------------------ objects
Interp::Interp(Module &mm) : m(mm) { IP = this; ptReset(); o.emplace_back(); o[0].name = "null"; o[0].kind = O_NULL; o[0].dead = true; gobj.assign(m.g.size(), -1); fuel = 400000000ull; }
int Interp::newObj(const std::string &name, OK kind, u64 size, u32 align, u64 tracked) {
  Obj x; x.name = name; x.kind = kind; x.size = size; x.align = align; x.tracked = std::min(size, tracked);
  x.b.assign(x.tracked * 8, UNINIT); x.ty.assign(x.tracked, 0); o.push_back(std::move(x)); return o.size() - 1;
}
int Interp::globalObj(u32 g) {
  if (gobj[g] >= 0) return gobj[g];
  auto &G = m.g[g]; int id = newObj(G.name, O_GLOBAL, G.size, G.align); gobj[g] = id; o[id].gid = g; o[id].constTable = G.constant || (!G.written && G.defined); o[id].ro = G.constant; o[id].roWhat = "constant object " + G.name;
  if (!G.defined) throw Unsupported("external object " + G.name);
  for (u64 i = 0; i < G.size; i++) for (u32 k = 0; k < 8; k++) o[id].b[i * 8 + k] = G.bytes[i] >> k & 1;
  for (auto &r : G.rel) { Val v; if (r.func) { v.k = Val::FUNC; v.obj = r.id; v.n = m.ptrbits; } else { int t = globalObj(r.id); v = vPtr(t, r.add); } o[id].ptrs[r.off] = v; }
  return id;
}
std::string Interp::where() {
  std::string s = curF ? curF->name : "?"; if (cur && cur->file) { std::string f = m.files[cur->file - 1]; auto p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1); s = f + ":" + std::to_string(cur->line) + " (" + s + ")"; } return s;
}
Bit Interp::toAddrBits(const Val &p, BV &out) {
  u32 n = p.n; out.assign(n, 0);
  if (p.k != Val::PTR) throw Unsupported("address of a conditional pointer");
  if (p.obj == 0) { for (u32 i = 0; i < n; i++) out[i] = i < 64 ? (u64)p.off >> i & 1 : 0; if (p.b) { BV s = p.b->b; s.resize(n, 0); Val v = arith(I_ADD, out, s, n, nullptr); toBV(v, out); } return 0; }
  Obj &ob = o[p.obj];
  if (ob.addr.empty()) { u32 a = 0; while ((1u << a) < ob.align) a++; for (u32 i = 0; i < 64; i++) ob.addr.push_back(i < a ? 0 : pBase("address of " + ob.name + " bit " + std::to_string(i))); }
  BV base(n), off(n); for (u32 i = 0; i < n; i++) { base[i] = mk(ob.tag, ob.addr[std::min(i, 63u)]); off[i] = i < 64 ? (u64)p.off >> i & 1 : 0; }
  Val v = arith(I_ADD, base, off, n, nullptr); toBV(v, out);
  if (p.b) { BV s = p.b->b; s.resize(n, 0); v = arith(I_ADD, out, s, n, nullptr); toBV(v, out); }
  return 0;
}

// ------------------------------------------------------------------ events
static std::string bitsWitness(BEval &e, u32 s, u32 tag) {
  std::string r; auto it = e.ev.find(tag); Eval *x = it == e.ev.end() ? nullptr : it->second; if (!x) { if (!tag) return ""; x = e.get(tag); }
  char buf[8]; r = "control word "; for (int i = 0; i < 8; i++) { u32 v = 0; for (int b = 0; b < 8; b++) v |= (u32)(x->base("key" + std::to_string(i * 8 + b)) >> s & 1) << b; snprintf(buf, 8, "%02x", v); r += buf; }
  return r;
}
bool Interp::possible(Bit c, std::string &wit, LSet *set) {
  if (set) *set = 1;
  if (!c) return false; if (c == 1) { wit = ""; return true; }
  if (bTag(c) == T_GT && !bDefinedWhen(c)) { wit = "depending on memory that was never written"; return true; }
  if (bPoly(c)) {
    if (pLonly(bId(c))) { LSet s = lOr(pLset(bId(c)), pG(bId(c))); if (set) *set = s; wit = "for packet " + lText(s); return s != 0; }
  }
  for (u32 t = 0; t < 400; t++) {
    BEval e; e.gseed = hash64(t + 77); e.make = [&](u32 tag) { u32 pt = hash64(t * 131 + tag) % LPTS.size(); if (bPoly(c) && tag == bTag(c)) { LSet mset = pMay1(bId(c)); for (u32 k = 0; k < LPTS.size(); k++) if (lHas(mset, (pt + k) % LPTS.size())) { pt = (pt + k) % LPTS.size(); break; } } return new Eval(pt, hash64(t * 977 + tag)); };
    u64 v = e.bit(c); if (v) { u32 s = __builtin_ctzll(v); wit = "for " + bitsWitness(e, s, bPoly(c) ? bTag(c) : 1); if (set && bPoly(c)) *set = pMay1(bId(c)); return true; }
  }
  wit = "unconfirmed"; return true;
}
void Interp::event(const std::string &kind, const std::string &text, Bit cond, u32 tag) {
  if (!cond) return; std::string w = where(); std::string key = kind + "|" + w + "|" + text; auto it = evIdx.find(key);
  if (it != evIdx.end() && ev[it->second].confirmed) { auto &e = ev[it->second]; e.count++; if (e.count < 64 && bPoly(cond)) { std::string wit; LSet s = 0; if (cond == 1) e.set = 1; else if (pLonly(bId(cond))) { possible(cond, wit, &s); e.set = lOr(e.set, s); } } return; }
  std::string wit; LSet s = 1; if (!possible(cond, wit, &s)) return; bool conf = wit != "unconfirmed"; if (descUninit && kind.compare(0, 6, "uninit") == 0) wit += " (after the length of the terminating descriptor was read)";
  if (it != evIdx.end()) { auto &e = ev[it->second]; e.count++; if (conf) { e.confirmed = true; e.witness = wit; e.tag = tag; e.set = s; } return; }
  evIdx[key] = ev.size(); ev.push_back({kind, w, text, wit, tag, conf, 1, s});
}

// ------------------------------------------------------------------ memory
Bit Interp::inBounds(Obj &ob, i64 off, u64 n) {
  if (off < 0) return 0; u64 end = (u64)off + n;
  if (!ob.lsize) return end <= ob.size ? 1 : 0;
  return mk(ob.tag, pLen(lWhere([&](u64 L) { return L >= end; })));
}
// calls that must be refused: nothing after the first payload access matters
void Interp::payloadTouch(Bit cond) {
  size_t k = ev.size(); event("payload-access", "a payload is accessed", cond); for (; k < ev.size(); k++) if (ev[k].confirmed) throw Stop("payload accessed");
}
static std::string lastObj(const Obj &ob) { return ob.kind == O_PAYLOAD ? "a packet payload" : ob.name; }
void Interp::access(int obj, i64 off, u64 n, u32 align, bool write, Bit mm) {
  nAcc++;
  Obj &ob = o[obj];
  if (obj == 0) { event("null", std::string(write ? "write" : "read") + " through a null or invalid pointer", mm); throw Stop("null pointer access"); }
  if (ob.dead || ob.freed) { event("uaf", std::string(write ? "write to " : "read of ") + lastObj(ob) + " after its lifetime ended", mm); if (ob.b.empty()) throw Stop("access to a dead object"); }
  if (ob.kind == O_PAYLOAD) { if (stopAtPayload) payloadTouch(mm); ob.touched = true; if (write) ob.written = true; }
  Bit in = inBounds(ob, off, n);
  if (in != 1) { Bit bad = bAnd(mm, bNot(in)); if (bad) event(write ? "oob-write" : "oob-read", std::string(write ? "write of " : "read of ") + std::to_string(n) + " bytes outside " + lastObj(ob) + (ob.lsize ? "" : " (" + std::to_string(ob.size) + " bytes)"), bad, ob.tag); }
  if (align > 1) { u64 a = ob.align; u64 lo = (u64)off & (~(u64)off + 1); if (lo && lo < a) a = lo; if (a < align) event("align", std::string(write ? "write" : "read") + " assuming " + std::to_string(align) + "-byte alignment of " + lastObj(ob) + " at offset multiple of " + std::to_string(lo ? lo : ob.size) + ", aligned to " + std::to_string(a), mm, ob.tag); }
  if (write && ob.ro) event("ro-write", "write to " + (ob.roWhat.empty() ? ob.name : ob.roWhat), mm, ob.tag);
}
static void memOrder(const BV &in, u32 lane, bool big, BV &out) {  // register order <-> memory order
  u32 lb = lane / 8; if (!big || lb <= 1) { out = in; return; }
  out.resize(in.size()); u32 nl = in.size() / lane;
  for (u32 l = 0; l < nl; l++) for (u32 k = 0; k < lb; k++) for (u32 b = 0; b < 8; b++) out[l * lane + k * 8 + b] = in[l * lane + (lb - 1 - k) * 8 + b];
}
static bool tcompat(Module &m, u32 a, u32 b) {
  if (!a || !b || a == b) return true; for (u32 x : m.tbaaAnc[a]) if (x == b) return true; for (u32 x : m.tbaaAnc[b]) if (x == a) return true; return m.tbaaName[a] == m.tbaaName[b];
}
Val Interp::loadAt(int obj, i64 off, const Ty &t, u32 align, u32 tbaa, Bit mm) {
  if (t.k == TY_AGG) { Val r; r.k = Val::AGG; r.n = t.bits; r.x = Ref<Ext>(new Ext); for (u32 i = 0; i < t.sub.size(); i++) r.x->v.push_back(loadAt(obj, off + t.off[i], t.sub[i], 1, 0, mm)); return r; }
  if (t.k != TY_INT && t.k != TY_PTR) throw Unsupported("load of this type at " + where());
  access(obj, off, t.bytes, align, false, mm); Obj &ob = o[obj]; nLoads++;
  u32 n = t.bytes;
  if (tbaa) {
    if (ob.charOnly) event("tbaa", "byte data of " + lastObj(ob) + " read as '" + m.tbaaName[tbaa] + "'", mm, ob.tag);
    else if (ob.kind != O_GLOBAL) for (u32 i = 0; i < n; i++) { i64 p = off + i; if (p >= 0 && (u64)p < ob.tracked && !tcompat(m, ob.ty[p], tbaa)) { event("tbaa", "object of type '" + m.tbaaName[ob.ty[p]] + "' read as '" + m.tbaaName[tbaa] + "'", mm, ob.tag); break; } }
  }
  if (!ob.ptrs.empty()) {
    auto it = ob.ptrs.find(off);
    if (it != ob.ptrs.end() && n * 8 == m.ptrbits) { Val v = it->second; v.n = m.ptrbits; return v; }
    for (auto &p : ob.ptrs) if (p.first < off + (i64)n && p.first + (i64)m.ptrbits / 8 > off) { // bytes of an address
      BV a; Val q = p.second; q.n = m.ptrbits; if (q.k != Val::PTR) throw Unsupported("bytes of a conditional pointer"); toAddrBits(q, a); BV mem; memOrder(a, m.ptrbits, m.big, mem); for (u32 i = 0; i < m.ptrbits; i++) ob.b[p.first * 8 + i] = mem[i];
    }
  }
  BV mem(n * 8);
  for (u32 i = 0; i < n; i++) { i64 p = off + i; if (p >= 0 && (u64)p < ob.tracked) for (u32 k = 0; k < 8; k++) { if (ob.kind == O_DESC && ob.b[p * 8 + k] == UNINIT) descUninit = true; mem[i * 8 + k] = rdBit(ob, p * 8 + k); } else for (u32 k = 0; k < 8; k++) mem[i * 8 + k] = bFresh(); }
  if (t.k == TY_PTR) { bool c = true; u64 v = 0; BV r; memOrder(mem, m.ptrbits, m.big, r); for (u32 i = 0; i < r.size(); i++) { if (r[i] > 1) c = false; else v |= r[i] << i; } if (c) { Val p = vPtr(0, (i64)v); p.n = m.ptrbits; return p; } Val u; u.k = Val::BITS; u.n = m.ptrbits; u.b = Ref<Buf>(new Buf); u.b->b = r; return u; }
  if (!m.big) { mem.resize(t.bits); return vBits(std::move(mem)); }
  BV r; memOrder(mem, t.lane < 8 ? 8 : (t.lane + 7) / 8 * 8, true, r); r.resize(t.bits); return vBits(std::move(r));
}
void Interp::storeAt(int obj, i64 off, const Val &v, const Ty &t, u32 align, u32 tbaa, Bit mm) {
  if (t.k == TY_AGG) { if (v.k != Val::AGG) throw Unsupported("aggregate store"); for (u32 i = 0; i < t.sub.size(); i++) storeAt(obj, off + t.off[i], v.x->v[i], t.sub[i], 1, 0, mm); return; }
  if (t.k != TY_INT && t.k != TY_PTR) throw Unsupported("store of this type at " + where());
  access(obj, off, t.bytes, align, true, mm); Obj &ob = o[obj]; nStores++; u32 n = t.bytes; ob.dirty = true;
  if (tbaa) {
    if (ob.charOnly) event("tbaa", "byte data of " + lastObj(ob) + " written as '" + m.tbaaName[tbaa] + "'", mm, ob.tag);
    else for (u32 i = 0; i < n; i++) { i64 p = off + i; if (p < 0 || (u64)p >= ob.tracked) continue; if (ob.kind != O_HEAP && ob.kind != O_GLOBAL && !tcompat(m, ob.ty[p], tbaa)) { event("tbaa", "object of type '" + m.tbaaName[ob.ty[p]] + "' written as '" + m.tbaaName[tbaa] + "'", mm, ob.tag); } ob.ty[p] = tbaa; }
  }
  if (off < 0 || (u64)off >= ob.tracked) { if (ob.kind == O_PAYLOAD) event("far-write", "write beyond the processed part of a packet payload", bAnd(mm, inBounds(ob, off, n)), ob.tag); return; }
  if (mm == ob.birth) mm = 1;
  bool isptr = v.k == Val::PTR || v.k == Val::PSET || v.k == Val::FUNC;
  if (!ob.ptrs.empty()) for (auto it = ob.ptrs.begin(); it != ob.ptrs.end();) { if (it->first < off + (i64)n && it->first + (i64)m.ptrbits / 8 > off && !(isptr && it->first == off)) { if (mm != 1) throw Unsupported("conditional overwrite of a pointer"); it = ob.ptrs.erase(it); } else ++it; }
  if (isptr && t.bits == m.ptrbits) {
    if (v.k == Val::PTR && v.obj == 0 && !v.b) { BV c(m.ptrbits), mem; for (u32 i = 0; i < m.ptrbits; i++) c[i] = (u64)v.off >> i & 1; memOrder(c, m.ptrbits, m.big, mem); if (ob.ptrs.count(off)) { if (mm != 1) throw Unsupported("conditional overwrite of a pointer"); ob.ptrs.erase(off); } for (u32 i = 0; i < mem.size(); i++) ob.b[off * 8 + i] = bMux(mm, mem[i], rdBit(ob, off * 8 + i)); return; }
    if (mm == 1) { ob.ptrs[off] = v; return; }
    Val old; auto it = ob.ptrs.find(off); if (it == ob.ptrs.end()) { old = Val(); old.n = m.ptrbits; } else old = it->second;
    std::vector<std::pair<Bit, const Val *>> l = {{mm, &v}, {bNot(mm), &old}}; ob.ptrs[off] = merge(l); return;
  }
  BV r = bv(v), mem; r.resize(n * 8, 0);
  memOrder(r, t.k == TY_PTR ? m.ptrbits : t.lane < 8 ? 8 : (t.lane + 7) / 8 * 8, m.big, mem);
  u64 lim = std::min<u64>(ob.tracked, off + n) - off;
  if (mm == 1) { std::copy(mem.begin(), mem.begin() + lim * 8, ob.b.begin() + off * 8); return; }
  for (u64 i = 0; i < lim * 8; i++) { Bit &x = ob.b[off * 8 + i]; if (x == mem[i]) continue; x = bMux(mm, mem[i], rdBit(ob, off * 8 + i)); }
}
bool Interp::expand(const Val &p, std::vector<std::pair<Bit, Val>> &out) {
  if (p.k == Val::PSET) { for (u32 i = 0; i < p.x->v.size(); i++) { std::vector<std::pair<Bit, Val>> s; if (!expand(p.x->v[i], s)) return false; for (auto &q : s) { Bit c = bAnd(p.x->m[i], q.first); if (c) out.push_back({c, q.second}); } } return true; }
  if (p.k == Val::CONST) { out.push_back({1, vPtr(0, p.c)}); return true; }
  if (p.k != Val::PTR) { if (p.k == Val::UNSET || (p.k == Val::BITS && bTag(p.b->b[0]) == T_GT && !bDefinedWhen(p.b->b[0]))) { event("uninit-addr", "address read from memory that was never written", mask); throw Stop("undefined address"); } throw Unsupported("address that is not a pointer at " + where()); }
  if (!p.b) { out.push_back({1, p}); return true; }
  u32 tag; std::vector<u64> vals; if (!lonlyWord(p.b->b, tag, vals)) return false;
  std::map<u64, int> g; for (u64 v : vals) g[v]++;
  LSet ms = 1; if (mask != 1 && bPoly(mask) && bTag(mask) == tag && pLonly(bId(mask))) ms = pLset(bId(mask));
  u32 left = 0;
  for (auto &q : g) {
    u32 k = 0; LSet s = lWhere([&](u64) { return vals[k++] == q.first; }); if (!lAnd(s, ms)) continue;
    if (++left > 600) throw Unsupported("too many addresses");
    Val c = p; c.b = Ref<Buf>(); c.off += sext(q.first, p.b->b.size()); out.push_back({mk(tag, pLen(s)), c});
  }
  return true;
}
Val Interp::load(const Val &p, const Ty &t, u32 align, u32 tbaa) {
  std::vector<std::pair<Bit, Val>> l;
  if (p.k == Val::PTR && !p.b) return loadAt(p.obj, p.off, t, align, tbaa, mask);
  if (!expand(p, l)) return loadTable(p, t, align, tbaa);
  if (l.size() == 1) return loadAt(l[0].second.obj, l[0].second.off, t, align, tbaa, mask);
  std::vector<Val> vs(l.size()); std::vector<std::pair<Bit, const Val *>> mv;
  for (u32 i = 0; i < l.size(); i++) { Bit mm = bAnd(mask, l[i].first); vs[i] = loadAt(l[i].second.obj, l[i].second.off, t, align, tbaa, mm); }
  for (u32 i = 0; i < l.size(); i++) mv.push_back({l[i].first, &vs[i]});
  return merge(mv);
}
void Interp::store(const Val &p, const Val &v, const Ty &t, u32 align, u32 tbaa) {
  if (p.k == Val::PTR && !p.b) { storeAt(p.obj, p.off, v, t, align, tbaa, mask); return; }
  std::vector<std::pair<Bit, Val>> l;
  if (!expand(p, l)) {
    // data-dependent address: every location is conditionally written
    std::vector<u32> pos; const BV &s = p.b->b; u64 base = 0; for (u32 i = 0; i < s.size(); i++) if (s[i] > 1) pos.push_back(i); else base |= s[i] << i;
    if (pos.size() > 8) throw Unsupported("store to a data-dependent address at " + where());
    for (u32 a = 0; a < 1u << pos.size(); a++) { u64 off = base; Bit c = mask; for (u32 i = 0; i < pos.size(); i++) { bool on = a >> i & 1; if (on) off |= 1ull << pos[i]; c = bAnd(c, on ? s[pos[i]] : bNot(s[pos[i]])); } if (c) storeAt(p.obj, p.off + sext(off, s.size()), v, t, align, tbaa, c); }
    return;
  }
  for (auto &q : l) { Bit mm = bAnd(mask, q.first); if (mm) storeAt(q.second.obj, q.second.off, v, t, align, tbaa, mm); }
}
Val Interp::loadTable(const Val &p, const Ty &t, u32 align, u32 tbaa) {
  if (p.k != Val::PTR || !p.b) throw Unsupported("table address at " + where());
  if (t.k != TY_INT) throw Unsupported("table of pointers at " + where());
  Obj &ob = o[p.obj]; if (p.obj == 0) access(0, 0, 1, 1, false, mask);
  const BV &s = p.b->b; TabKey key; u64 base = 0; std::vector<Bit> var;
  for (u32 i = 0; i < s.size(); i++) if (s[i] > 1) { // sign-extension copies count once
      bool dup = false; if (i + 1 == s.size() && false) dup = true; if (!dup) { key.pos.push_back(i); var.push_back(s[i]); } } else base |= s[i] << i;
  // merge equal bits (sign extension)
  std::vector<Bit> uv; std::vector<std::vector<u32>> up; for (u32 i = 0; i < var.size(); i++) { u32 k = 0; while (k < uv.size() && uv[k] != var[i]) k++; if (k == uv.size()) { uv.push_back(var[i]); up.push_back({}); } up[k].push_back(key.pos[i]); }
  if (uv.size() > 16) throw Unsupported("address with " + std::to_string(uv.size()) + " variable bits at " + where());
  nLut++; u32 n = t.bytes, nb = n * 8, V = uv.size(); u64 N = 1ull << V;
  key.obj = p.obj; key.off = p.off + (i64)base; key.n = n; std::vector<u32> flat; for (auto &x : up) { for (u32 q : x) flat.push_back(q); flat.push_back(~0u); } key.pos = flat;
  auto offOf = [&](u64 a) { u64 x = base; for (u32 i = 0; i < V; i++) if (a >> i & 1) for (u32 q : up[i]) x |= 1ull << q; return p.off + sext(x, s.size()); };
  { // the address with the lowest alignment and the bounds
    Bit in; bool anyBad = false; u64 al = ob.align; for (u64 a = 0; a < N; a++) { i64 of = offOf(a); u64 lo = (u64)of & (~(u64)of + 1); if (lo && lo < al) al = lo; in = inBounds(ob, of, n); if (in != 1) anyBad = true; }
    nAcc++;
    if (ob.dead || ob.freed) access(p.obj, p.off, n, 1, false, mask);
    if (al < align) event("align", "table read assuming " + std::to_string(align) + "-byte alignment of " + lastObj(ob), mask);
    if (anyBad) {
      std::string text = "read of " + std::to_string(n) + " bytes at a data-dependent index outside " + lastObj(ob) + " (" + std::to_string(ob.size) + " bytes)"; std::string kk = "oob-read|" + where() + "|" + text; auto it = evIdx.find(kk);
      if (it == evIdx.end() || !ev[it->second].confirmed) {
        bool g = false, found = false; std::string wit; for (Bit b : uv) if (bTag(b) == T_GT && !bDefinedWhen(b)) g = true;
        if (ob.lsize) { found = true; wit = "payload indexed by data"; }
        for (u32 tr = 0; tr < 600 && !found; tr++) {
          BEval e; e.gseed = hash64(tr); e.make = [&](u32 tag) { return new Eval(hash64(tr * 31 + tag) % LPTS.size(), hash64(tr * 977 + tag + 5)); };
          std::vector<u64> w; for (Bit b : uv) w.push_back(e.bit(b)); u64 mk_ = mask == 1 ? ~0ull : e.bit(mask); if (e.garb && !g) continue;
          for (u32 x = 0; x < 64 && !found; x++) { if (!(mk_ >> x & 1)) continue; u64 a = 0; for (u32 i = 0; i < V; i++) a |= (w[i] >> x & 1) << i; if (inBounds(ob, offOf(a), n) != 1) { found = true; wit = g ? "for some contents of an unused lane" : "at index offset " + std::to_string(offOf(a)) + ", for " + bitsWitness(e, x, bPoly(uv[0]) ? bTag(uv[0]) : 1); } }
        }
        if (it == evIdx.end()) { evIdx[kk] = ev.size(); ev.push_back({"oob-read", where(), text, found ? wit : "unconfirmed", 0, found, 1, 1}); } else if (found) { ev[it->second].confirmed = true; ev[it->second].witness = wit; }
      } else ev[it->second].count++;
    }
  }
  auto it = ob.constTable && !ob.dirty ? tabs.find(key) : tabs.end();
  bool constant = true;
  if (it == tabs.end()) {
    std::vector<std::vector<u64>> tt(nb, std::vector<u64>(std::max<u64>(1, N / 64), 0));
    for (u64 a = 0; a < N && constant; a++) { i64 of = offOf(a); for (u32 k = 0; k < n; k++) { i64 q = of + k; if (q < 0 || (u64)q >= ob.tracked) continue; for (u32 b = 0; b < 8; b++) { Bit x = ob.b[q * 8 + b]; if (x > 1) { constant = false; break; } if (x) tt[k * 8 + b][a / 64] |= 1ull << (a % 64); } } }
    if (constant) { tabTT.push_back(tt); u32 id = tabTT.size() - 1; if (ob.constTable && !ob.dirty) it = tabs.emplace(key, id).first; else { TabKey k2 = key; k2.obj = -1 - (int)id; it = tabs.emplace(k2, id).first; } }
  }
  BV mem(nb);
  if (constant) {
    u32 id = it->second; u32 tag = 0; bool simple = true;
    for (Bit b : uv) { u32 x = bTag(b); if (x >= T_GT || (x && tag && x != tag)) simple = false; else tag |= x; }
    if (simple) {
      u64 h = id; for (Bit b : uv) h = hash64(h * 0x9E3779B97F4A7C15ull + bId(b)); auto &bk = lutCache[h]; std::vector<u32> kk{id}; for (Bit b : uv) kk.push_back(bId(b)); const std::vector<Poly> *res = nullptr;
      for (auto &e : bk) if (e.first == kk) res = &e.second;
      if (!res) { std::vector<Poly> r(nb); std::vector<Poly> v; for (Bit b : uv) v.push_back(bId(b)); for (u32 i = 0; i < nb; i++) r[i] = pLut(v, tabTT[id][i]); bk.push_back({kk, r}); res = &bk.back().second; }
      for (u32 i = 0; i < nb; i++) mem[i] = mk(tag, (*res)[i]);
    } else for (u32 i = 0; i < nb; i++) mem[i] = bLut(uv, tabTT[id][i]);
  } else {
    if (N > 256) throw Unsupported("large variable table at " + where());
    std::vector<BV> rows(N, BV(nb)); for (u64 a = 0; a < N; a++) { i64 of = offOf(a); for (u32 k = 0; k < n; k++) { i64 q = of + k; for (u32 b = 0; b < 8; b++) rows[a][k * 8 + b] = (q < 0 || (u64)q >= ob.tracked) ? 0 : rdBit(ob, q * 8 + b); } }
    for (u32 i = 0; i < V; i++) for (u64 a = 0; a < N >> (i + 1); a++) { BV r; muxBits(uv[i], rows[2 * a + 1], rows[2 * a], r); rows[a] = r; }
    mem = rows[0];
  }
  if (!m.big) { mem.resize(t.bits); return vBits(std::move(mem)); }
  BV r; memOrder(mem, (t.lane + 7) / 8 * 8, true, r); r.resize(t.bits); return vBits(std::move(r));
}
void Interp::memcpyOp(const Val &dv, const Val &sv, const Val &nv, bool isMove) {
  std::vector<std::pair<Bit, Val>> D, S; 
  std::vector<u64> cnt; u32 ctag = 0; bool sym = false; u64 max;
  if (nv.isConst()) max = nv.c; else { BV b = bv(nv); for (Bit x : b) if (bTag(x) == T_GT) { if (bDefinedWhen(x)) throw Unsupported("copy length at " + where()); event("uninit-branch", "copy length read from memory that was never written", mask); throw Stop("undefined copy length"); } if (!lonlyWord(b, ctag, cnt)) { if (stopAtPayload) { Bit nz = 0; for (Bit x : b) nz = bNot(bAnd(bNot(nz), bNot(x))); if (expand(dv, D) && expand(sv, S)) for (auto *v : {&D, &S}) for (auto &q : *v) if (o[q.second.obj].kind == O_PAYLOAD) payloadTouch(bAnd(bAnd(mask, q.first), nz)); } throw Unsupported("copy length at " + where()); } sym = true; max = 0; LSet ms = 1; if (mask != 1 && bPoly(mask) && bTag(mask) == ctag && pLonly(bId(mask))) ms = pLset(bId(mask)); for (u32 i = 0; i < cnt.size(); i++) if (lHas(ms, i)) max = std::max(max, cnt[i]); }
  if (!max) return;
  if (!expand(dv, D) || !expand(sv, S)) throw Unsupported("copy at a data-dependent address at " + where());
  for (auto &d : D) for (auto &s : S) {
    Bit m0 = bAnd(mask, bAnd(d.first, s.first)); if (!m0) continue; int od = d.second.obj, os = s.second.obj; i64 fd = d.second.off, fs = s.second.off;
    if (od == 0 || os == 0) access(0, 0, 1, 1, false, m0);
    if (od == os && fd == fs && isMove) continue;
    if (od == os && fd != fs && !isMove) { u64 dist = fd > fs ? fd - fs : fs - fd; Bit bad = sym ? bAnd(m0, cmpPoints(cnt, ctag, [&](u64 c) { return c > dist; })) : dist < max ? m0 : 0; if (bad) event("overlap", "memcpy between overlapping ranges of " + lastObj(o[od]), bad); }
    if (!sym) { // one access each
      access(os, fs, max, 1, false, m0); access(od, fd, max, 1, true, m0);
    }
    u64 n = max; Obj &X = o[od], &Y = o[os]; nLoads++; nStores++; X.dirty = true;
    if (sym) { if (X.dead || X.freed) access(od, fd, 1, 1, true, m0); if (Y.dead || Y.freed) access(os, fs, 1, 1, false, m0); if (X.ro) event("ro-write", "write to " + (X.roWhat.empty() ? X.name : X.roWhat), m0, X.tag); X.touched = Y.touched = X.written = true; }
    // pointers carried along
    if (!Y.ptrs.empty() || !X.ptrs.empty()) {
      if (sym || m0 != 1) throw Unsupported("conditional copy of pointers at " + where());
      std::map<i64, Val> add; for (auto &p : Y.ptrs) if (p.first >= fs && p.first + (i64)m.ptrbits / 8 <= fs + (i64)n) add[p.first - fs + fd] = p.second;
      for (auto it = X.ptrs.begin(); it != X.ptrs.end();) if (it->first < fd + (i64)n && it->first + (i64)m.ptrbits / 8 > fd) it = X.ptrs.erase(it); else ++it;
      for (auto &p : add) X.ptrs[p.first] = p.second;
    }
    bool back = od == os && fd > fs;
    u64 lim = n; u64 mt = 1 << 20; if (X.tracked) mt = std::max<u64>(X.tracked, Y.tracked); lim = std::min<u64>(lim, mt + 16);
    bool stopW = false, stopR = false; Bit prevW = 2, prevR = 2;
    for (u64 q = 0; q < lim; q++) {
      u64 k = back ? lim - 1 - q : q; Bit mm = m0;
      if (sym) {
        mm = bAnd(m0, cmpPoints(cnt, ctag, [&](u64 c) { return c > k; })); if (!mm) { if (back) continue; break; }
        if (!stopR) { Bit bad = bAnd(mm, bNot(inBounds(Y, fs + k, 1))); if (bad && bad != prevR) { event("oob-read", "copy reading outside " + lastObj(Y) + (Y.lsize ? "" : " (" + std::to_string(Y.size) + " bytes)"), bad, X.tag | Y.tag); prevR = bad; if (!Y.lsize) stopR = true; } }
        if (!stopW) { Bit bad = bAnd(mm, bNot(inBounds(X, fd + k, 1))); if (bad && bad != prevW) { event("oob-write", "copy writing outside " + lastObj(X) + (X.lsize ? "" : " (" + std::to_string(X.size) + " bytes)"), bad, X.tag | Y.tag); prevW = bad; if (!X.lsize) stopW = true; } }
      }
      i64 pd = fd + (i64)k, ps = fs + (i64)k; bool din = pd >= 0 && (u64)pd < X.tracked, sin = ps >= 0 && (u64)ps < Y.tracked;
      if (!din) { if (X.kind == O_PAYLOAD && pd >= 0 && !(od == os && fd == fs)) event("far-write", "write beyond the processed part of a packet payload", bAnd(mm, inBounds(X, pd, 1)), X.tag); if (!sin) { if (!back) break; } continue; }
      if (mm == X.birth) mm = 1;
      if (mm == 1) { X.ty[pd] = sin ? Y.ty[ps] : 0; } else X.ty[pd] = 0;
      for (u32 b = 0; b < 8; b++) {
        Bit v = sin ? Y.b[ps * 8 + b] : UNINIT; Bit &x = X.b[pd * 8 + b];
        if (mm == 1) x = v; else { if (v == UNINIT) { v = sin ? rdBit(Y, ps * 8 + b) : bFresh(); } Bit old = rdBit(X, pd * 8 + b); if (old != v) X.b[pd * 8 + b] = bMux(mm, v, old); }
      }
      N_BITOPS += 8;
    }
    if (lim < n && X.kind == O_PAYLOAD && !(od == os && fd == fs)) event("far-write", "write beyond the processed part of a packet payload", sym ? bAnd(m0, cmpPoints(cnt, ctag, [&](u64 c) { return c > lim; })) : m0, X.tag);
  }
}
void Interp::memsetOp(const Val &dv, const Val &cv, const Val &nv) {
  std::vector<std::pair<Bit, Val>> D; std::vector<u64> cnt; u32 ctag = 0; bool sym = !nv.isConst(); u64 max = nv.c;
  if (sym) { BV b = bv(nv); if (!lonlyWord(b, ctag, cnt)) throw Unsupported("fill length at " + where()); max = 0; for (u64 c : cnt) max = std::max(max, c); }
  if (!max) return;
  BV c = bv(cv); c.resize(8, 0);
  if (!expand(dv, D)) throw Unsupported("fill at a data-dependent address at " + where());
  for (auto &d : D) {
    Bit m0 = bAnd(mask, d.first); if (!m0) continue; int od = d.second.obj; i64 fd = d.second.off;
    if (!sym) access(od, fd, max, 1, true, m0); else access(od, fd, 1, 1, true, bAnd(m0, cmpPoints(cnt, ctag, [&](u64 q) { return q > 0; })));
    Obj &X = o[od]; X.dirty = true; nStores++; bool st = false;
    for (auto it = X.ptrs.begin(); it != X.ptrs.end();) if (it->first < fd + (i64)max && it->first + (i64)m.ptrbits / 8 > fd) { if (m0 != 1 || sym) throw Unsupported("conditional fill of pointers"); it = X.ptrs.erase(it); } else ++it;
    for (u64 k = 0; k < max && k < X.tracked + 16; k++) {
      Bit mm = sym ? bAnd(m0, cmpPoints(cnt, ctag, [&](u64 q) { return q > k; })) : m0; if (!mm) break; i64 p = fd + (i64)k;
      if (sym && !st) { Bit bad = bAnd(mm, bNot(inBounds(X, p, 1))); if (bad) { event("oob-write", "fill outside " + lastObj(X), bad, X.tag); if (!X.lsize) st = true; } }
      if (p < 0 || (u64)p >= X.tracked) { if (X.kind == O_PAYLOAD) event("far-write", "write beyond the processed part of a packet payload", bAnd(mm, inBounds(X, p, 1)), X.tag); continue; }
      if (mm == X.birth) mm = 1;
      X.ty[p] = 0; for (u32 b = 0; b < 8; b++) { if (mm == 1) X.b[p * 8 + b] = c[b]; else X.b[p * 8 + b] = bMux(mm, c[b], rdBit(X, p * 8 + b)); }
    }
  }
}

// ------------------------------------------------------------------ scalar operations
static void addBits(const Bit *a, const Bit *b, Bit c, u32 n, Bit *r) {
  for (u32 i = 0; i < n; i++) {
    Bit x = a[i], y = b[i]; Bit xy = bXor(x, y); r[i] = bXor(xy, c); if (i + 1 == n) break;
    if (!c) c = bAnd(x, y); else if (c == 1) c = bOr(x, y); else if (!x) c = bAnd(y, c); else if (!y) c = bAnd(x, c); else c = bXor(bAnd(x, y), bAnd(c, xy));
  }
}
Val Interp::arith(Op op, const BV &a, const BV &b, u32 lane, const Instr *ins) {
  u32 n = a.size(); BV r(n);
  if (n == lane && n <= 64) { // pointwise over the lengths
    u32 ta, tb; std::vector<u64> va, vb;
    bool garb = false; for (u32 i = 0; i < n; i++) if (a[i] > 1 || b[i] > 1) { garb = true; break; }
    if (garb && lonlyWord(a, ta, va) && lonlyWord(b, tb, vb) && (!ta || !tb || ta == tb)) {
      std::vector<u32> key{(u32)op, n}; for (Bit x : a) key.push_back(bId(x)); for (Bit x : b) key.push_back(bId(x));
      auto it = ptCache.find(key);
      if (it == ptCache.end()) {
        std::vector<u64> v(va.size());
        for (u32 i = 0; i < v.size(); i++) {
          u64 x = va[i], y = vb[i], q = 0;
          switch (op) { case I_ADD: q = x + y; break; case I_SUB: q = x - y; break; case I_MUL: q = x * y; break;
          case I_UDIV: q = y ? x / y : 0; break; case I_UREM: q = y ? x % y : 0; break; case I_SDIV: q = y && !(y == lowMask(n) && x == 1ull << (n - 1)) ? sext(x, n) / sext(y, n) : 0; break; case I_SREM: q = y && y != lowMask(n) ? sext(x, n) % sext(y, n) : 0; break;
          default: q = 0; }
          v[i] = q & lowMask(n);
        }
        Val w = fromPoints(v, n, 1); BV wb = bv(w); std::vector<u32> ids; for (Bit x : wb) ids.push_back(bId(x)); it = ptCache.emplace(key, ids).first;
      }
      for (u32 i = 0; i < n; i++) r[i] = mk(ta | tb, it->second[i]);
      if (op == I_UDIV || op == I_SDIV || op == I_UREM || op == I_SREM) { Bit z = cmpPoints(vb, tb, [](u64 y) { return y == 0; }); if (bAnd(z, mask)) event("div", "division by zero", bAnd(z, mask)); }
      return vBits(std::move(r));
    }
  }
  N_BITOPS += n;
  for (u32 l = 0; l < n; l += lane) {
    const Bit *x = &a[l], *y = &b[l]; Bit *z = &r[l];
    switch (op) {
    case I_ADD: addBits(x, y, 0, lane, z); break;
    case I_SUB: { BV ny(lane); for (u32 i = 0; i < lane; i++) ny[i] = bNot(y[i]); addBits(x, ny.data(), 1, lane, z); break; }
    case I_MUL: {
      u32 cx = 0, cy = 0; for (u32 i = 0; i < lane; i++) { cx += x[i] != 0; cy += y[i] != 0; if (x[i] > 1) cx += 100; if (y[i] > 1) cy += 100; }
      const Bit *p = x, *q = y; if (cx < cy) std::swap(p, q);  // q: multiplier with fewest set bits
      BV acc(lane, 0), t(lane), s(lane);
      for (u32 k = 0; k < lane; k++) { if (!q[k]) continue; for (u32 i = 0; i < lane; i++) t[i] = i < k ? 0 : bAnd(p[i - k], q[k]); addBits(acc.data(), t.data(), 0, lane, s.data()); acc = s; }
      std::copy(acc.begin(), acc.end(), z); break;
    }
    case I_UDIV: case I_UREM: {
      u64 c = 0; bool k = true; for (u32 i = 0; i < lane; i++) if (y[i] > 1) k = false; else if (i < 64) c |= y[i] << i;
      if (!k || !c || (c & (c - 1))) throw Unsupported("division at " + where());
      u32 sh = __builtin_ctzll(c); for (u32 i = 0; i < lane; i++) z[i] = op == I_UDIV ? (i + sh < lane ? x[i + sh] : 0) : (i < sh ? x[i] : 0); break;
    }
    case I_SDIV: case I_SREM: {
      u64 c = 0; bool k = true; for (u32 i = 0; i < lane; i++) if (y[i] > 1) k = false; else if (i < 64) c |= y[i] << i;
      if (!k || !c || (c & (c - 1)) || x[lane - 1] != 0) throw Unsupported("signed division at " + where());
      u32 sh = __builtin_ctzll(c); for (u32 i = 0; i < lane; i++) z[i] = op == I_SDIV ? (i + sh < lane ? x[i + sh] : 0) : (i < sh ? x[i] : 0); break;
    }
    default: throw Unsupported("operation at " + where());
    }
  }
  return vBits(std::move(r));
}
void Interp::checkOverflow(const Instr &i, const BV &a, const BV &b) {
  u32 w = a.size(); if (w > 64) return; u32 n = i.op == I_MUL ? 2 * w : w + 1; if (n > 128) n = 128;
  u32 ta, tb; std::vector<u64> va, vb;
  if (lonlyWord(a, ta, va) && lonlyWord(b, tb, vb) && (!ta || !tb || ta == tb)) {
    std::vector<u8> bad(va.size()); bool any = false;
    for (u32 k = 0; k < va.size(); k++) { __int128 x = sext(va[k], w), y = sext(vb[k], w), r = i.op == I_ADD ? x + y : i.op == I_SUB ? x - y : x * y; bad[k] = r != (__int128)sext((u64)r, w); any |= bad[k]; }
    if (any) { u32 k = 0; event("overflow", "signed arithmetic overflow", bAnd(mask, mk(ta | tb, pLen(lWhere([&](u64) { return bad[k++]; }))))); }
    return;
  }
  BV x = a, y = b; x.resize(n, a[w - 1]); y.resize(n, b[w - 1]); 
  // magnitude argument: enough known-zero top bits mean no overflow
  auto top = [&](const BV &v) { u32 k = w; while (k && v[k - 1] == 0) k--; return k; };
  u32 ka = top(a), kb = top(b);
  if (i.op == I_ADD && std::max(ka, kb) + 1 < w) return; if (i.op == I_SUB && ka < w && kb < w) return; if (i.op == I_MUL && ka + kb < w) return;
  BV r(n); { const Instr *c = cur; Val v = arith(i.op, x, y, n, c); r = bv(v); }
  Bit ov = 0; for (u32 k = w; k < n; k++) { Bit d = bXor(r[k], r[w - 1]); ov = ov ? bOr(ov, d) : d; }
  ov = bAnd(ov, mask); if (ov) event("overflow", "signed arithmetic overflow", ov);
}
Val Interp::icmp(u8 pred, const Val &A, const Val &B, u32 lane) {
  auto sc = [&](bool x) { return vConst(x, 1); };
  if (A.k == Val::PSET || B.k == Val::PSET) {
    const Val &S = A.k == Val::PSET ? A : B; std::vector<Val> vs(S.x->v.size()); std::vector<std::pair<Bit, const Val *>> mv;
    for (u32 i = 0; i < vs.size(); i++) vs[i] = A.k == Val::PSET ? icmp(pred, S.x->v[i], B, lane) : icmp(pred, A, S.x->v[i], lane);
    for (u32 i = 0; i < vs.size(); i++) mv.push_back({S.x->m[i], &vs[i]}); return merge(mv);
  }
  if (A.k == Val::FUNC || B.k == Val::FUNC) { bool e = A.k == B.k && A.obj == B.obj; if (pred == P_EQ) return sc(e); if (pred == P_NE) return sc(!e); throw Unsupported("function pointer comparison"); }
  auto isP = [](const Val &v) { return v.k == Val::PTR && v.obj != 0; };
  if (isP(A) || isP(B)) {
    if (isP(A) && isP(B) && A.obj == B.obj) {
      if (!A.b && !B.b) { i64 x = A.off, y = B.off; switch (pred) { case P_EQ: return sc(x == y); case P_NE: return sc(x != y); case P_UGT: case P_SGT: return sc(x > y); case P_UGE: case P_SGE: return sc(x >= y); case P_ULT: case P_SLT: return sc(x < y); default: return sc(x <= y); } }
      BV x(64), y(64); for (u32 i = 0; i < 64; i++) { x[i] = (u64)A.off >> i & 1; y[i] = (u64)B.off >> i & 1; } if (A.b) { BV t = A.b->b; t.resize(64, t.back()); x = bv(arith(I_ADD, x, t, 64, nullptr)); } if (B.b) { BV t = B.b->b; t.resize(64, t.back()); y = bv(arith(I_ADD, y, t, 64, nullptr)); }
      u8 p2 = pred == P_UGT ? P_SGT : pred == P_UGE ? P_SGE : pred == P_ULT ? P_SLT : pred == P_ULE ? P_SLE : pred; return icmp(p2, vBits(std::move(x)), vBits(std::move(y)), 64);
    }
    if (isP(A) && isP(B)) { if (pred == P_EQ) return sc(false); if (pred == P_NE) return sc(true); throw Unsupported("order of unrelated pointers at " + where()); }
    const Val &O = isP(A) ? B : A; bool zero = (O.k == Val::CONST && O.c == 0) || (O.k == Val::PTR && O.obj == 0 && O.off == 0 && !O.b);
    if (zero) { if (pred == P_EQ) return sc(false); if (pred == P_NE) return sc(true); if (isP(A) && (pred == P_UGT)) return sc(true); if (isP(A) && pred == P_ULE) return sc(false); if (isP(B) && pred == P_ULT) return sc(true); }
  }
  BV a = bv(A), b = bv(B); u32 n = a.size(); if (b.size() != n) { b.resize(n, 0); }
  if (!lane) lane = n; BV r(n / lane);
  for (u32 l = 0; l < n / lane; l++) {
    const Bit *x = &a[l * lane], *y = &b[l * lane]; Bit res;
    if (lane <= 64) {
      u32 ta, tb; std::vector<u64> va, vb; BV sx(x, x + lane), sy(y, y + lane); bool c = true; for (u32 i = 0; i < lane; i++) if (x[i] > 1 || y[i] > 1) c = false;
      if (c || (lonlyWord(sx, ta, va) && lonlyWord(sy, tb, vb) && (!ta || !tb || ta == tb))) {
        auto f = [&](u64 p, u64 q) { i64 sp = sext(p, lane), sq = sext(q, lane); switch (pred) { case P_EQ: return p == q; case P_NE: return p != q; case P_UGT: return p > q; case P_UGE: return p >= q; case P_ULT: return p < q; case P_ULE: return p <= q; case P_SGT: return sp > sq; case P_SGE: return sp >= sq; case P_SLT: return sp < sq; default: return sp <= sq; } };
        if (c) { u64 p = 0, q = 0; for (u32 i = 0; i < lane; i++) { p |= x[i] << i; q |= y[i] << i; } r[l] = f(p, q); continue; }
        std::vector<u32> key{100u + pred, lane}; for (Bit t : sx) key.push_back(bId(t)); for (Bit t : sy) key.push_back(bId(t)); auto it = ptCache.find(key);
        if (it == ptCache.end()) { u32 k = 0; LSet s = lWhere([&](u64) { bool z = f(va[k], vb[k]); k++; return z; }); it = ptCache.emplace(key, std::vector<u32>{s == 1 ? 1 : pLen(s)}).first; }
        r[l] = mk(ta | tb, it->second[0]); continue;
      }
    }
    if (pred == P_EQ || pred == P_NE) { Bit e = 1; for (u32 i = 0; i < lane && e; i++) e = bAnd(e, bNot(bXor(x[i], y[i]))); res = pred == P_EQ ? e : bNot(e); }
    else {
      bool sg = pred >= P_SGT; bool gt = pred == P_UGT || pred == P_SGT || pred == P_ULE || pred == P_SLE;  // compute x>y (then maybe negate) or x<y
      Bit lt = 0, eq = 1; for (u32 i = lane; i-- > 0 && eq;) { Bit p = x[i], q = y[i]; if (gt) std::swap(p, q); if (sg && i == lane - 1) std::swap(p, q); lt = bXor(lt, bAnd(eq, bAnd(bNot(p), q))); eq = bAnd(eq, bNot(bXor(p, q))); }
      res = (pred == P_ULE || pred == P_SLE || pred == P_UGE || pred == P_SGE) ? bNot(lt) : lt;
    }
    r[l] = res;
  }
  return vBits(std::move(r));
}
Val Interp::binop(const Instr &i, const Val &a, const Val &b) {
  u32 n = i.ty.bits, lane = i.ty.lane;
  if (a.isConst() && b.isConst() && n <= 64 && n == lane) {
    u64 x = a.c, y = b.c, r = 0; i64 sx = sext(x, n), sy = sext(y, n);
    switch (i.op) {
    case I_ADD: r = x + y; if (i.nsw) { __int128 q = (__int128)sx + sy; if (q != (__int128)sext((u64)q, n)) event("overflow", "signed arithmetic overflow", mask); } break;
    case I_SUB: r = x - y; if (i.nsw) { __int128 q = (__int128)sx - sy; if (q != (__int128)sext((u64)q, n)) event("overflow", "signed arithmetic overflow", mask); } break;
    case I_MUL: r = x * y; if (i.nsw) { __int128 q = (__int128)sx * sy; if (q != (__int128)sext((u64)q, n)) event("overflow", "signed arithmetic overflow", mask); } break;
    case I_UDIV: case I_UREM: case I_SDIV: case I_SREM:
      if (!y) { event("div", "division by zero", mask); throw Stop("division by zero"); }
      if ((i.op == I_SDIV || i.op == I_SREM) && sy == -1 && sx == sext(1ull << (n - 1), n)) { event("div", "division overflow", mask); throw Stop("division overflow"); }
      r = i.op == I_UDIV ? x / y : i.op == I_UREM ? x % y : i.op == I_SDIV ? (u64)(sx / sy) : (u64)(sx % sy); break;
    case I_SHL: case I_LSHR: case I_ASHR:
      if (y >= n) { event("shift", "shift by " + std::to_string(y) + " of a " + std::to_string(n) + "-bit value", mask); r = 0; break; }
      if (i.op == I_SHL && i.nsw && sext(x << y, n) >> y != sx) event("overflow", "signed left shift overflow", mask);
      r = i.op == I_SHL ? x << y : i.op == I_LSHR ? x >> y : (u64)(sx >> y); break;
    case I_AND: r = x & y; break; case I_OR: r = x | y; break; default: r = x ^ y;
    }
    return vConst(r, n);
  }
  // addresses as integers
  if (a.k == Val::PTR || b.k == Val::PTR || a.k == Val::PSET || b.k == Val::PSET) {
    auto isP = [](const Val &v) { return v.k == Val::PTR && v.obj != 0; };
    if (i.op == I_ADD && a.k == Val::PTR && b.k != Val::PTR) return addOff(a, b, 1, n);
    if (i.op == I_ADD && b.k == Val::PTR && a.k != Val::PTR) return addOff(b, a, 1, n);
    if (i.op == I_SUB && isP(a) && isP(b) && a.obj == b.obj) {
      if (!a.b && !b.b) return vConst((u64)(a.off - b.off), n); BV x(n), y(n); for (u32 k = 0; k < n; k++) { x[k] = (u64)a.off >> k & 1; y[k] = (u64)b.off >> k & 1; }
      if (a.b) { BV t = a.b->b; t.resize(n, t.back()); x = bv(arith(I_ADD, x, t, n, nullptr)); } if (b.b) { BV t = b.b->b; t.resize(n, t.back()); y = bv(arith(I_ADD, y, t, n, nullptr)); } return arith(I_SUB, x, y, n, nullptr);
    }
    if (i.op == I_SUB && a.k == Val::PTR && b.isConst()) return addOff(a, vConst(-b.c, n), 1, n);
    if (i.op == I_AND && isP(a) && b.isConst() && !a.b && o[a.obj].align > (~b.c & lowMask(n))) { Val r = a; u64 low = ~b.c & lowMask(n); r.off &= ~(i64)low; return r; }
    if (i.op == I_AND && isP(a) && b.isConst() && !a.b && b.c < o[a.obj].align) return vConst((u64)a.off & b.c, n);
  }
  BV x = bv(a), y = bv(b); if (x.size() != n) x.resize(n, 0); if (y.size() != n) y.resize(n, 0);
  switch (i.op) {
  case I_AND: case I_OR: case I_XOR: { BV r; bitwise(i.op == I_AND ? '&' : i.op == I_OR ? '|' : '^', x, y, r); return vBits(std::move(r)); }
  case I_SHL: case I_LSHR: case I_ASHR: {
    BV r(n);
    for (u32 l = 0; l < n; l += lane) {
      bool k = true; u64 c = 0; for (u32 q = 0; q < lane; q++) if (y[l + q] > 1) k = false; else if (y[l + q] && q < 64) c |= 1ull << q;
      BV v(x.begin() + l, x.begin() + l + lane);
      auto sh = [&](const BV &s, u64 amt) { BV t(lane); Bit fill = i.op == I_ASHR ? s[lane - 1] : 0; for (u32 q = 0; q < lane; q++) { if (i.op == I_SHL) t[q] = q >= amt ? s[q - amt] : 0; else t[q] = q + amt < lane ? s[q + amt] : fill; } return t; };
      if (k) { if (c >= lane) { event("shift", "shift by " + std::to_string(c) + " of a " + std::to_string(lane) + "-bit value", mask); c = lane; } v = sh(v, c); }
      else {
        BV amt(y.begin() + l, y.begin() + l + lane); Bit big = bNot(bv(icmp(P_ULT, vBits(BV(amt)), vConst(lane, lane), lane))[0]); big = bAnd(big, mask); if (big) event("shift", "shift amount not below " + std::to_string(lane), big);
        for (u32 q = 0; q < lane && (1ull << q) < lane; q++) { if (!amt[q]) continue; BV t = sh(v, 1ull << q), w; muxBits(amt[q], t, v, w); v = w; }
      }
      std::copy(v.begin(), v.end(), r.begin() + l);
    }
    if (i.op == I_SHL && i.nsw && n == lane) { // overflow when shifted-out bits differ from the sign
      if (y.size() && b.isConst() && b.c < n) { Bit ov = 0; for (u32 q = n - 1 - b.c; q < n; q++) { Bit d = bXor(x[q], x[n - 1 - b.c]); ov = bOr(ov, d); } ov = bAnd(ov, mask); if (ov) event("overflow", "signed left shift overflow", ov); }
    }
    N_BITOPS += n; return vBits(std::move(r));
  }
  default:
    if (i.nsw && n == lane && (i.op == I_ADD || i.op == I_SUB || i.op == I_MUL)) checkOverflow(i, x, y);
    return arith(i.op, x, y, lane, &i);
  }
}
Val Interp::addOff(const Val &p, const Val &idx, i64 scale, u32 w) {
  if (p.k == Val::PSET) { Val r = p; r.x = Ref<Ext>(new Ext(*p.x)); r.x->rc = 1; for (auto &v : r.x->v) v = addOff(v, idx, scale, w); return r; }
  if (p.k == Val::CONST) { Val q = vPtr(0, (i64)p.c); q.n = p.n; return addOff(q, idx, scale, w); }
  if (p.k == Val::UNSET || p.k == Val::BITS) { event("uninit-addr", "address computed from memory that was never written or from data", mask); throw Stop("undefined address"); }
  if (p.k != Val::PTR) throw Unsupported("pointer arithmetic at " + where());
  Val r = p;
  if (idx.isConst()) { r.off = (i64)((u64)r.off + (u64)(sext(idx.c, w) * scale)); if (m.ptrbits == 32 && p.obj == 0) r.off = (i64)(u32)r.off; return r; }
  if (idx.k == Val::PTR || idx.k == Val::PSET) throw Unsupported("pointer used as an index at " + where());
  BV b = bv(idx); b.resize(64, b[w - 1]);
  if (scale != 1) { BV s(64); for (u32 i = 0; i < 64; i++) s[i] = (u64)scale >> i & 1; b = bv(arith(I_MUL, b, s, 64, nullptr)); }
  if (r.b) { BV t = r.b->b; b = bv(arith(I_ADD, b, t, 64, nullptr)); }
  Val v = vBits(std::move(b)); if (v.isConst()) { r.b = Ref<Buf>(); r.off += (i64)v.c; } else r.b = v.b; return r;
}
Val Interp::gep(Frame &f, const Instr &i) {
  Val p = opnd(f, i.a[0]);
  if (p.k == Val::PSET || p.k == Val::CONST) { p = addOff(p, vConst((u64)i.off, 64), 1, 64); }
  else if (p.k == Val::PTR) p.off += i.off;
  else p = addOff(p, vConst(0, 64), 1, 64);
  for (u32 k = 1; k < i.a.size(); k++) p = addOff(p, opnd(f, i.a[k]), (i64)i.imm[2 * (k - 1)], (u32)i.imm[2 * (k - 1) + 1]);
  p.n = m.ptrbits; return p;
}

// ------------------------------------------------------------------ joins
static bool sameVal(const Val &a, const Val &b) {
  if (a.k != b.k) return false;
  switch (a.k) { case Val::CONST: return a.c == b.c && a.n == b.n; case Val::BITS: return a.b.p == b.b.p || a.b->b == b.b->b; case Val::PTR: return a.obj == b.obj && a.off == b.off && (a.b.p == b.b.p || (a.b && b.b && a.b->b == b.b->b)); case Val::FUNC: return a.obj == b.obj; default: return a.k == Val::UNSET || a.x.p == b.x.p; }
}
Val Interp::merge(std::vector<std::pair<Bit, const Val *>> &v) {
  bool same = true; for (auto &x : v) if (!sameVal(*x.second, *v[0].second)) same = false; if (same) return *v[0].second;
  bool ptr = false, agg = false; for (auto &x : v) { if (x.second->k == Val::PTR || x.second->k == Val::PSET || x.second->k == Val::FUNC) ptr = true; if (x.second->k == Val::AGG) agg = true; }
  if (agg) { Val r = *v[0].second; r.x = Ref<Ext>(new Ext(*r.x)); r.x->rc = 1; for (u32 k = 0; k < r.x->v.size(); k++) { std::vector<std::pair<Bit, const Val *>> s; for (auto &x : v) { if (x.second->k != Val::AGG) throw Unsupported("aggregate join"); s.push_back({x.first, &x.second->x->v[k]}); } r.x->v[k] = merge(s); } return r; }
  if (ptr) {
    Val r; r.k = Val::PSET; r.n = m.ptrbits; r.x = Ref<Ext>(new Ext);
    auto add = [&](Bit c, const Val &p) { for (u32 i = 0; i < r.x->v.size(); i++) if (sameVal(r.x->v[i], p)) { r.x->m[i] = bOr(r.x->m[i], c); return; } r.x->m.push_back(c); r.x->v.push_back(p); };
    for (auto &x : v) { const Val &p = *x.second; if (p.k == Val::PSET) { for (u32 i = 0; i < p.x->v.size(); i++) { Bit c = bAnd(x.first, p.x->m[i]); if (c) add(c, p.x->v[i]); } } else if (p.k == Val::PTR || p.k == Val::FUNC) add(x.first, p); else if (p.k == Val::CONST) add(x.first, vPtr(0, p.c)); else { Val u; u.n = m.ptrbits; add(x.first, u); } }
    if (r.x->v.size() == 1) return r.x->v[0]; if (r.x->v.size() > 600) throw Unsupported("too many pointer targets"); return r;
  }
  u32 n = 0; for (auto &x : v) if (x.second->n > n) n = x.second->n;
  BV acc, t, r; auto get = [&](const Val &q, BV &o) { if (q.k == Val::UNSET) { o.resize(n); for (auto &z : o) z = bFresh(); } else toBV(q, o); };
  get(*v.back().second, acc); for (size_t i = v.size() - 1; i-- > 0;) { get(*v[i].second, t); muxBits(v[i].first, t, acc, r); acc = r; }
  return vBits(std::move(acc));
}
Val Interp::opnd(Frame &f, int a, const Ty *t) {
  if (a >= 0) {
    const Val &v = f.r[a];
    if (v.k == Val::BITS && bPending()) for (Bit x : v.b->b) if (bTag(x) == T_GT) { BV r = v.b->b; for (auto &y : r) y = bUnder(y, mask); return vBits(std::move(r)); }
    return v;
  }
  const KVal &k = m.k[~a]; std::function<Val(const KVal &)> conv = [&](const KVal &q) -> Val {
    switch (q.k) {
    case KVal::NULLP: { Val v = vPtr(0, 0); v.n = m.ptrbits; return v; }
    case KVal::GLOBAL: { Val v = vPtr(globalObj(q.id), q.off); v.n = m.ptrbits; return v; }
    case KVal::FUNC: { Val v; v.k = Val::FUNC; v.obj = q.id; v.n = m.ptrbits; return v; }
    case KVal::AGG: { Val v; v.k = Val::AGG; v.n = q.bits; v.x = Ref<Ext>(new Ext); for (auto &s : q.sub) v.x->v.push_back(conv(s)); return v; }
    case KVal::INT: {
      if (q.bits <= 64 && q.undef.empty()) return vConst(q.v[0], q.bits);
      BV b(q.bits); for (u32 i = 0; i < q.bits; i++) { if (!q.undef.empty() && (q.undef[i / 64] >> (i % 64) & 1)) b[i] = bFresh(); else b[i] = q.v[i / 64] >> (i % 64) & 1; } return vBits(std::move(b));
    }
    default: throw Unsupported("constant (" + q.why + ") at " + where());
    }
  };
  return conv(k);
}
void Interp::edge(Frame &f, u32 from, u32 to, std::vector<Val> &phi) {
  auto &B = f.f->b[to]; phi.clear();
  for (u32 k = 0; k < B.nphi; k++) { auto &p = B.ins[k]; bool ok = false; for (u32 q = 0; q < p.blk.size(); q++) if (p.blk[q] == from) { Val v = opnd(f, p.a[q]); if (!v.n) v.n = p.ty.bits; phi.push_back(v); ok = true; break; } if (!ok) throw Unsupported("phi"); }
}
void Interp::assignPhis(Frame &f, u32 b, std::vector<Val> &phi) { auto &B = f.f->b[b]; for (u32 k = 0; k < B.nphi; k++) f.r[B.ins[k].dst] = phi[k]; }

// strongly connected components, to order the sides of a branch
static std::map<const Func *, std::vector<u32>> sccOf;
static const std::vector<u32> &sccs(const Func *f) {
  auto it = sccOf.find(f); if (it != sccOf.end()) return it->second;
  u32 n = f->b.size(); std::vector<u32> idx(n, 0), low(n, 0), comp(n, 0); std::vector<u8> on(n, 0); std::vector<u32> st; u32 c = 0, k = 0;
  std::function<void(u32)> go = [&](u32 v) { idx[v] = low[v] = ++c; st.push_back(v); on[v] = 1; for (u32 w : f->b[v].succ) { if (!idx[w]) { go(w); low[v] = std::min(low[v], low[w]); } else if (on[w]) low[v] = std::min(low[v], idx[w]); } if (low[v] == idx[v]) { k++; while (true) { u32 w = st.back(); st.pop_back(); on[w] = 0; comp[w] = k; if (w == v) break; } } };
  for (u32 v = 0; v < n; v++) if (!idx[v]) go(v); return sccOf[f] = comp;
}

// branches that decide whether a (natural) loop goes on
static bool decidesLoop(const Func *f, u32 b) {
  static std::map<const Func *, std::vector<u8>> of; auto it = of.find(f);
  if (it == of.end()) {
    u32 n = f->b.size(); std::vector<std::vector<u32>> pred(n); for (u32 v = 0; v < n; v++) for (u32 w : f->b[v].succ) pred[w].push_back(v);
    std::vector<std::vector<bool>> dom(n, std::vector<bool>(n, true)); dom[0].assign(n, false); dom[0][0] = true;
    for (bool ch = true; ch;) { ch = false; for (u32 v = 1; v < n; v++) { std::vector<bool> d(n, true); for (u32 p : pred[v]) for (u32 k = 0; k < n; k++) if (!dom[p][k]) d[k] = false; d[v] = true; if (d != dom[v]) { dom[v] = d; ch = true; } } }
    std::map<u32, std::vector<bool>> body;
    for (u32 v = 0; v < n; v++) for (u32 h : f->b[v].succ) if (dom[v][h]) { auto &L = body.emplace(h, std::vector<bool>(n, false)).first->second; L[h] = true; std::vector<u32> st; if (!L[v]) { L[v] = true; st.push_back(v); } while (!st.empty()) { u32 w = st.back(); st.pop_back(); for (u32 p : pred[w]) if (!L[p]) { L[p] = true; st.push_back(p); } } }
    std::vector<u8> r(n, 0); for (auto &L : body) for (u32 v = 0; v < n; v++) if (L.second[v]) { bool in = false, ou = false; for (u32 w : f->b[v].succ) (L.second[w] ? in : ou) = true; if (in && ou) r[v] = 1; }
    auto &comp = sccs(f); for (u32 v = 0; v < n; v++) { bool in = false, ou = false; for (u32 w : f->b[v].succ) (comp[w] == comp[v] ? in : ou) = true; if (in && ou) r[v] = 1; }
    it = of.emplace(f, std::move(r)).first;
  }
  return it->second[b];
}

void Interp::dataBranch(Frame &f, u32 b, const Block &B, Bit x) {
  if (!decidesLoop(f.f, b)) return;
  for (u32 t = 0; t < 64; t++) {
    BEval e; e.gseed = t; e.make = [&](u32 tag) { return new Eval(hash64(t * 131 + tag) % LPTS.size(), hash64(t * 977 + tag)); };
    u64 mk_ = e.bit(mask), v = e.bit(x) & mk_; if (v && v != mk_) { event("dataloop", "the number of rounds of a loop depends on key or payload bytes", mask, bTag(x)); if (stopDataLoop) throw Stop("data-dependent loop"); return; }
  }
}
// a loop left at a moment that depends on a packet's length: how often can it have gone round?
void Interp::lenBranch(Frame &f, u32 b, const Block &B) {
  if (!decidesLoop(f.f, b)) return;
  if (++f.lenRounds[b] > maxLenRounds) { event("rounds", "a loop goes round as often as a packet's declared length says, whatever the maximum length", mask); throw Stop("rounds of a loop"); }
}
void Interp::run(Frame &f, u32 b, int stop, std::vector<Arrival> &out) {
  for (;;) {
    const Block &B = f.f->b[b]; std::vector<std::pair<Bit, u32>> T; visited.insert((u32)(f.f - &m.f[0]) << 16 | b);
    for (u32 k = B.nphi; k < B.ins.size(); k++) {
      const Instr &i = B.ins[k]; cur = &i; curF = f.f;
      if (++steps > fuel) { event("fuel", "no end within the step budget", mask); throw Stop("step budget"); }
      if (i.op == I_BR) T.push_back({mask, i.blk[0]});
      else if (i.op == I_CBR) {
        Val c = opnd(f, i.a[0]); nBranches++;
        if (c.isConst()) { T.push_back({mask, i.blk[c.c ? 0 : 1]}); if (!f.lenRounds.empty() && f.lenRounds.count(b)) lenBranch(f, b, B); }
        else {
          Bit x = c.k == Val::BITS ? c.b->b[0] : bFresh(); if (bTag(x) == T_GT) { Bit dw = bDefinedWhen(x); event("uninit-branch", "branch on memory that was never written", bAnd(mask, bNot(dw))); if (!dw) throw Stop("undefined branch"); x = bIfDefined(x); }
          if (bTag(x) == T_X) throw Unsupported("branch mixing packets at " + where());
          if (pG(bId(x))) { Bit g = bAnd(mask, mk(bTag(x), pLen(pG(bId(x))))); if (g) event("uninit-branch", "branch on memory that was never written", g, bTag(x)); x = mk(bTag(x), pDefined(bId(x))); }
          Bit m1 = bAnd(mask, x), m0 = bAnd(mask, bNot(x)); if (bTag(m1) == T_X || bTag(m0) == T_X) throw Unsupported("nested conditions on different packets at " + where());
          if (bPoly(x)) { if (!pLonly(bId(x))) dataBranch(f, b, B, x); else lenBranch(f, b, B); }
          nDiv++; if (m1) T.push_back({m1, i.blk[0]}); if (m0) T.push_back({m0, i.blk[1]});
        }
      } else if (i.op == I_SWITCH) {
        Val c = opnd(f, i.a[0]); nBranches++; bool done = false;
        if (c.isConst()) { for (u32 q = 0; q < i.imm.size(); q++) if (i.imm[q] == c.c) { T.push_back({mask, i.blk[q + 1]}); done = true; break; } if (!done) T.push_back({mask, i.blk[0]}); }
        else { Bit rest = mask; for (u32 q = 0; q < i.imm.size(); q++) { Bit e = bv(icmp(P_EQ, c, vConst(i.imm[q], i.argty.bits), i.argty.bits))[0]; if (bTag(e) >= T_GT) throw Unsupported("switch condition at " + where()); Bit mm = bAnd(mask, e); if (mm) T.push_back({mm, i.blk[q + 1]}); rest = bAnd(rest, bNot(e)); } if (rest) T.push_back({rest, i.blk[0]}); 
          std::map<u32, Bit> by; std::vector<u32> ord; for (auto &t : T) { if (!by.count(t.second)) { by[t.second] = t.first; ord.push_back(t.second); } else by[t.second] = bXor(by[t.second], t.first); } T.clear(); for (u32 t : ord) T.push_back({by[t], t}); }
      } else if (i.op == I_RET) { Arrival a; a.m = mask; if (!i.a.empty()) a.phi.push_back(opnd(f, i.a[0])); out.push_back(std::move(a)); return; }
      else if (i.op == I_UNREACHABLE) { event("unreachable", "control reaches a point that must not be reached", mask); aborted = bOr(aborted, mask); return; }
      else { exec(f, i); if (!mask) return; }
    }
    if (T.empty()) return;
    if (T.size() > 1) {
      std::vector<std::pair<Bit, u32>> live, dead; for (auto &t : T) (f.f->b[t.second].reachesRet ? live : dead).push_back(t);
      if (!dead.empty()) {
        std::vector<Val> snap = f.r; Bit keep = mask;
        for (auto &t : dead) { mask = t.first; std::vector<Val> ph; edge(f, b, t.second, ph); assignPhis(f, t.second, ph); std::vector<Arrival> none; run(f, t.second, -2, none); f.r = snap; }
        mask = keep; if (live.empty()) { mask = 0; return; }
      }
      T = live;
    }
    if (T.size() == 1) {
      mask = T[0].first; u32 t = T[0].second; std::vector<Val> ph; edge(f, b, t, ph);
      if ((int)t == stop) { out.push_back({mask, std::move(ph)}); return; }
      assignPhis(f, t, ph); b = t; continue;
    }
    int J = f.f->b[b].ipdom; auto &comp = sccs(f.f);
    if (J < 0) throw Unsupported("control structure at " + where());
    std::vector<Val> snap = f.r; std::vector<std::vector<Val>> ph(T.size()); for (u32 q = 0; q < T.size(); q++) edge(f, b, T[q].second, ph[q]);
    std::vector<u32> order; for (u32 q = 0; q < T.size(); q++) if ((int)T[q].second != J && comp[T[q].second] != comp[b]) order.push_back(q); for (u32 q = 0; q < T.size(); q++) if ((int)T[q].second != J && comp[T[q].second] == comp[b]) order.push_back(q);
    if (J == stop) {
      for (u32 q = 0; q < T.size(); q++) if ((int)T[q].second == J) out.push_back({T[q].first, ph[q]});
      if (order.empty()) return;
      for (u32 q = 0; q + 1 < order.size(); q++) { u32 s = order[q]; mask = T[s].first; assignPhis(f, T[s].second, ph[s]); if (++depth > 2000) throw Unsupported("nesting"); run(f, T[s].second, stop, out); depth--; f.r = snap; }
      u32 s = order.back(); mask = T[s].first; assignPhis(f, T[s].second, ph[s]); b = T[s].second; continue;
    }
    std::vector<Arrival> A;
    for (u32 q = 0; q < T.size(); q++) if ((int)T[q].second == J) A.push_back({T[q].first, ph[q]});
    for (u32 s : order) { mask = T[s].first; assignPhis(f, T[s].second, ph[s]); if (++depth > 2000) throw Unsupported("nesting"); run(f, T[s].second, J, A); depth--; f.r = snap; }
    if (A.empty()) { mask = 0; return; }
    Bit mm = 0; for (auto &a : A) mm = bXor(mm, a.m);
    std::vector<Val> res; for (u32 k = 0; k < f.f->b[J].nphi; k++) { std::vector<std::pair<Bit, const Val *>> l; for (auto &a : A) l.push_back({a.m, &a.phi[k]}); res.push_back(merge(l)); }
    mask = mm; assignPhis(f, J, res); b = J;
  }
}
Val Interp::callF(u32 fi, std::vector<Val> &args) {
  Func &F = m.f[fi]; if (!F.defined) throw Unsupported("call of undefined function " + F.name);
  if (stack.size() > 3000) { event("fuel", "unbounded recursion", mask); throw Stop("recursion"); }
  nCalls++; funcsSeen.insert(F.name); stack.push_back(&F);
  Frame f; f.f = &F; f.r.resize(F.nreg); for (u32 i = 0; i < F.nparam; i++) f.r[i] = args[i];
  std::vector<Arrival> out; const Instr *sc = cur; const Func *sf = curF;
  run(f, 0, -1, out);
  for (int a : f.allocas) { o[a].dead = true; o[a].b.clear(); o[a].b.shrink_to_fit(); o[a].ptrs.clear(); o[a].ty.clear(); o[a].tracked = 0; }
  cur = sc; curF = sf; stack.pop_back();
  if (out.empty()) { mask = 0; return Val(); }
  Bit mm = 0; for (auto &a : out) mm = bXor(mm, a.m); mask = mm;
  if (out[0].phi.empty()) return Val();
  std::vector<std::pair<Bit, const Val *>> l; for (auto &a : out) l.push_back({a.m, &a.phi[0]}); return merge(l);
}
Val Interp::call(const std::string &fn, std::vector<Val> args) {
  auto it = m.fidx.find(fn); if (it == m.fidx.end() || !m.f[it->second].defined) throw Unsupported("entry point " + fn + " is not defined");
  if (m.f[it->second].nparam != args.size()) throw Unsupported("entry point " + fn + " has another number of parameters");
  mask = 1; stack.clear(); return callF(it->second, args);
}

// ------------------------------------------------------------------ instructions
static Val insVal(const Val &a, const Ty &t, const std::vector<u64> &ix, u32 at, const Val &v) {
  if (at == ix.size()) return v; Val r; r.k = Val::AGG; r.n = t.bits; r.x = Ref<Ext>(new Ext); if (a.k == Val::AGG) r.x->v = a.x->v; r.x->v.resize(t.sub.size());
  for (u32 k = 0; k < r.x->v.size(); k++) if (r.x->v[k].k == Val::UNSET) r.x->v[k].n = t.sub[k].bits;
  Val n = insVal(r.x->v[ix[at]], t.sub[ix[at]], ix, at + 1, v); r.x->v[ix[at]] = n; return r;
}
void Interp::exec(Frame &f, const Instr &i) {
  auto set = [&](Val &&v) { if (i.dst >= 0) f.r[i.dst] = std::move(v); };
  if (i.ty.mmx && i.dst >= 0) { if (!mmxDirty) mmxWhere = where(); mmxDirty = bOr(mmxDirty, mask); }
  switch (i.op) {
  case I_ADD: case I_SUB: case I_MUL: case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: case I_SHL: case I_LSHR: case I_ASHR: case I_AND: case I_OR: case I_XOR:
    { Val a = opnd(f, i.a[0]), b = opnd(f, i.a[1]); if (a.k == Val::UNSET) a.n = i.ty.bits; if (b.k == Val::UNSET) b.n = i.ty.bits; set(binop(i, a, b)); return; }
  case I_ICMP: set(icmp(i.pred, opnd(f, i.a[0]), opnd(f, i.a[1]), i.argty.k == TY_PTR ? 0 : i.argty.lane)); return;
  case I_SELECT: {
    Val c = opnd(f, i.a[0]); 
    if (i.argty.vec) { BV cb = bv(c), a = bv(opnd(f, i.a[1])), b = bv(opnd(f, i.a[2])); u32 lane = i.ty.lane; BV r(a.size()); for (u32 k = 0; k < a.size(); k++) r[k] = bMux(cb[k / lane], a[k], b[k]); set(vBits(std::move(r))); return; }
    if (c.isConst()) { set(opnd(f, i.a[c.c ? 1 : 2])); return; }
    Bit x = bv(c)[0]; Val a = opnd(f, i.a[1]), b = opnd(f, i.a[2]); if (sameVal(a, b)) { set(std::move(a)); return; }
    if ((a.k == Val::PTR || b.k == Val::PTR || a.k == Val::PSET || b.k == Val::PSET) && bTag(x) >= T_GT) throw Unsupported("pointer selection at " + where());
    std::vector<std::pair<Bit, const Val *>> l = {{x, &a}, {bNot(x), &b}}; set(merge(l)); return;
  }
  case I_ZEXT: case I_SEXT: case I_TRUNC: {
    Val a = opnd(f, i.a[0]); u32 n = i.ty.bits, from = i.argty.lane, to = i.ty.lane;
    if (a.isConst() && n <= 64 && !i.ty.vec) { set(vConst(i.op == I_SEXT ? (u64)sext(a.c, a.n) : a.c, n)); return; }
    if (a.k == Val::PTR && n >= m.ptrbits && i.op == I_ZEXT) { a.n = n; set(std::move(a)); return; }
    if (a.k == Val::PTR && a.obj == 0) {}
    BV x = bv(a), r(n); u32 nl = n / to; for (u32 l = 0; l < nl; l++) for (u32 k = 0; k < to; k++) r[l * to + k] = k < from ? x[l * from + k] : i.op == I_SEXT ? x[l * from + from - 1] : 0;
    set(vBits(std::move(r))); return;
  }
  case I_BITCAST: { Val a = opnd(f, i.a[0]); if (m.big && i.ty.k == TY_INT && i.argty.k == TY_INT && i.ty.lane != i.argty.lane) { BV x = bv(a), mem, r; memOrder(x, i.argty.lane, true, mem); memOrder(mem, i.ty.lane, true, r); set(vBits(std::move(r))); return; } set(std::move(a)); return; }
  case I_PTRTOINT: { Val a = opnd(f, i.a[0]); if (a.k == Val::PTR && i.ty.bits < m.ptrbits) { BV b; toAddrBits(a, b); b.resize(i.ty.bits); set(vBits(std::move(b))); return; } if (a.k == Val::PTR && a.obj == 0 && !a.b) { set(vConst(a.off, i.ty.bits)); return; } a.n = i.ty.bits; set(std::move(a)); return; }
  case I_INTTOPTR: { Val a = opnd(f, i.a[0]); if (a.isConst()) { a = vPtr(0, a.c); } a.n = m.ptrbits; set(std::move(a)); return; }
  case I_FREEZE: { Val a = opnd(f, i.a[0]); if (a.k == Val::UNSET) { a.n = i.ty.bits; BV b = bv(a); a = vBits(std::move(b)); } set(std::move(a)); return; }
  case I_LOAD: { Val v = load(opnd(f, i.a[0]), i.ty, i.align, i.tbaa); set(std::move(v)); return; }
  case I_STORE: { Val v = opnd(f, i.a[0]); if (v.k == Val::UNSET) v.n = i.ty.bits; store(opnd(f, i.a[1]), v, i.ty, i.align, i.tbaa); return; }
  case I_ALLOCA: { Val n = opnd(f, i.a[0]); if (!n.isConst()) throw Unsupported("variable-length stack object at " + where()); u64 sz = (u64)i.off * n.c; if (sz > (8u << 20)) throw Unsupported("large stack object"); int id = newObj("a local of " + f.f->name + (i.name.empty() ? "" : " '" + i.name + "'"), O_STACK, sz, i.align); o[id].birth = mask; f.allocas.push_back(id); Val p = vPtr(id, 0); p.n = m.ptrbits; set(std::move(p)); return; }
  case I_GEP: set(gep(f, i)); return;
  case I_EXTRELT: { BV x = bv(opnd(f, i.a[0])); Val k = opnd(f, i.a[1]); if (!k.isConst()) throw Unsupported("vector element index at " + where()); u32 l = i.argty.lane; if (k.c * l + l > x.size()) { event("shift", "vector element index out of range", mask); throw Stop("vector index"); } set(vBits(BV(x.begin() + k.c * l, x.begin() + k.c * l + l))); return; }
  case I_INSELT: { Val base = opnd(f, i.a[0]); if (base.k == Val::UNSET) base.n = i.ty.bits; BV x = bv(base), e = bv(opnd(f, i.a[1])); Val k = opnd(f, i.a[2]); if (!k.isConst()) throw Unsupported("vector element index at " + where()); std::copy(e.begin(), e.end(), x.begin() + k.c * i.ty.lane); set(vBits(std::move(x))); return; }
  case I_SHUF: {
    Val va = opnd(f, i.a[0]), vb = opnd(f, i.a[1]); if (va.k == Val::UNSET) va.n = i.argty.bits; if (vb.k == Val::UNSET) vb.n = i.argty.bits;
    BV a = bv(va), b = bv(vb), r(i.ty.bits); u32 l = i.ty.lane, na = a.size() / l; for (u32 k = 0; k < i.imm.size(); k++) { i64 s = (i64)i.imm[k]; for (u32 q = 0; q < l; q++) r[k * l + q] = s < 0 ? bFresh() : (u64)s < na ? a[s * l + q] : b[(s - na) * l + q]; }
    set(vBits(std::move(r))); return;
  }
  case I_EXTVAL: { Val a = opnd(f, i.a[0]); const Ty *t = &i.argty; for (u64 k : i.imm) { if (a.k == Val::UNSET) { t = &t->sub[k]; a.n = t->bits; continue; } if (a.k != Val::AGG) throw Unsupported("aggregate at " + where()); t = &t->sub[k]; Val w = a.x->v[k]; a = w; } set(std::move(a)); return; }
  case I_INSVAL: { Val a = opnd(f, i.a[0]), v = opnd(f, i.a[1]); set(insVal(a, i.ty, i.imm, 0, v)); return; }
  case I_CALL: {
    if (i.callee >= 0 || i.callee == -2) {
      int fi = i.callee; std::vector<Val> args; u32 na = i.a.size() - (fi == -2); 
      if (fi == -2) { Val p = opnd(f, i.a.back()); if (p.k != Val::FUNC) { if (p.k == Val::PSET) throw Unsupported("conditional call target at " + where()); event("null", "call through an invalid function pointer", mask); throw Stop("bad call"); } fi = p.obj; if (!m.f[fi].defined) throw Unsupported("indirect call of an external function"); }
      for (u32 k = 0; k < na; k++) args.push_back(opnd(f, i.a[k])); args.resize(std::max<size_t>(args.size(), m.f[fi].nparam));
      Val v = callF(fi, args); cur = &i; curF = f.f; set(std::move(v)); return;
    }
    set(external(f, i)); return;
  }
  case I_NOP: return;
  default: throw Unsupported("instruction '" + i.name + "' at " + where());
  }
}

static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
Val Interp::external(Frame &f, const Instr &i) {
  const std::string &n = i.name; std::vector<Val> a; for (int x : i.a) a.push_back(x == ~0 && m.k.empty() ? Val() : opnd(f, x));
  auto bitop = [&](u8 op) { BV r; bitwise(op, bv(a[0]), bv(a[1]), r); return vBits(std::move(r)); };
  auto shiftLanes = [&](Op op, u32 lane) {
    BV x = bv(a[0]), r(x.size()); if (!a[1].isConst()) throw Unsupported("vector shift amount at " + where()); u64 c = a[1].c;
    for (u32 l = 0; l < x.size(); l += lane) for (u32 k = 0; k < lane; k++) { if (op == I_SHL) r[l + k] = k >= c ? x[l + k - c] : 0; else if (op == I_LSHR) r[l + k] = c < lane && k + c < lane ? x[l + k + c] : 0; else r[l + k] = x[l + std::min<u64>(k + c, lane - 1)]; }
    N_BITOPS += x.size(); return vBits(std::move(r));
  };
  if (starts(n, "llvm.")) {
    if (starts(n, "llvm.lifetime.start")) {
      std::vector<std::pair<Bit, Val>> l; if (!expand(a[1], l)) throw Unsupported("lifetime"); for (auto &q : l) { Obj &ob = o[q.second.obj]; if (ob.kind != O_STACK) continue; if (!ob.dirty) { ob.birth = mask; continue; } if (mask == 1 || mask == ob.birth) { ob.birth = mask; std::fill(ob.b.begin(), ob.b.end(), UNINIT); std::fill(ob.ty.begin(), ob.ty.end(), 0); ob.ptrs.clear(); ob.dirty = false; } else if (ob.ptrs.empty()) { ob.birth = 1; for (u64 k = 0; k < ob.b.size(); k++) { if (ob.b[k] != UNINIT) ob.b[k] = bMux(mask, bFresh(), ob.b[k]); } } }
      return Val();
    }
    if (starts(n, "llvm.lifetime.end") || starts(n, "llvm.assume") || starts(n, "llvm.prefetch") || starts(n, "llvm.dbg") || starts(n, "llvm.donothing") || starts(n, "llvm.experimental.noalias")) return Val();
    if (starts(n, "llvm.memcpy") || starts(n, "llvm.memmove")) {
      if (i.argalign.size() > 1) for (u32 k = 0; k < 2; k++) if (i.argalign[k] > 1) { std::vector<std::pair<Bit, Val>> l; if (expand(a[k], l)) for (auto &q : l) { Obj &ob = o[q.second.obj]; u64 al = ob.align, lo = (u64)q.second.off & (~(u64)q.second.off + 1); if (lo && lo < al) al = lo; if (q.second.obj && al < i.argalign[k]) event("align", "copy assuming " + std::to_string(i.argalign[k]) + "-byte alignment of " + lastObj(ob), bAnd(mask, q.first), ob.tag); } }
      memcpyOp(a[0], a[1], a[2], starts(n, "llvm.memmove")); return Val();
    }
    if (starts(n, "llvm.memset")) { memsetOp(a[0], a[1], a[2]); return Val(); }
    if (starts(n, "llvm.expect")) return a[0];
    if (starts(n, "llvm.stacksave") || starts(n, "llvm.stackrestore")) { Val p = vPtr(0, 0); p.n = m.ptrbits; return p; }
    if (starts(n, "llvm.is.constant")) return vConst(0, 1);
    if (starts(n, "llvm.objectsize")) return vConst(a[1].isConst() && a[1].c ? 0 : ~0ull, i.ty.bits);
    if (starts(n, "llvm.ctpop")) {                    // counted lane by lane with half adders
      u32 w = i.ty.lane; BV x = bv(a[0]), r(x.size(), 0); u32 top = 1; while ((1u << top) <= w) top++; top = std::min(top, w);
      for (u32 l = 0; l < x.size(); l += w) for (u32 k = 0; k < w; k++) { Bit c = x[l + k]; for (u32 b = 0; b < top && c; b++) { Bit s = bXor(r[l + b], c); c = bAnd(r[l + b], c); r[l + b] = s; } }
      return vBits(std::move(r));
    }
    if (starts(n, "llvm.cttz") || starts(n, "llvm.ctlz")) {
      u32 w = i.ty.lane; bool tz = starts(n, "llvm.cttz"); BV x = bv(a[0]), r(x.size());
      for (u32 l = 0; l < x.size(); l += w) for (u32 b = 0; b < w; b++) { Bit v = w >> b & 1; for (u32 k = w; k-- > 0;) { u32 at = tz ? k : w - 1 - k; v = bMux(x[l + at], (Bit)(k >> b & 1), v); } r[l + b] = v; }
      return vBits(std::move(r));
    }
    if (starts(n, "llvm.abs")) { u32 w = i.ty.lane; BV x = bv(a[0]), z(x.size(), 0); Val ng = arith(I_SUB, z, x, w, nullptr); BV y = bv(ng), r(x.size()); for (u32 k = 0; k < x.size(); k++) r[k] = bMux(x[k / w * w + w - 1], y[k], x[k]); return vBits(std::move(r)); }
    if (starts(n, "llvm.bswap")) { BV x = bv(a[0]), r(x.size()); u32 nb = i.ty.lane / 8; for (u32 l = 0; l < x.size() / i.ty.lane; l++) for (u32 k = 0; k < nb; k++) for (u32 b = 0; b < 8; b++) r[l * i.ty.lane + k * 8 + b] = x[l * i.ty.lane + (nb - 1 - k) * 8 + b]; return vBits(std::move(r)); }
    if (starts(n, "llvm.bitreverse")) { BV x = bv(a[0]), r(x.size()); u32 w = i.ty.lane; for (u32 l = 0; l < x.size(); l += w) for (u32 k = 0; k < w; k++) r[l + k] = x[l + w - 1 - k]; return vBits(std::move(r)); }
    if (starts(n, "llvm.fshl") || starts(n, "llvm.fshr")) {
      u32 w = i.ty.lane; BV x = bv(a[0]), y = bv(a[1]), s = bv(a[2]), r(x.size()); bool left = starts(n, "llvm.fshl");
      for (u32 l = 0; l < x.size(); l += w) { u64 c = 0; for (u32 k = 0; k < w; k++) { if (s[l + k] > 1) throw Unsupported("funnel shift amount"); if (k < 64) c |= s[l + k] << k; } c %= w; for (u32 k = 0; k < w; k++) { if (left) r[l + k] = k >= c ? x[l + k - c] : y[l + k + w - c]; else r[l + k] = k + c < w ? y[l + k + c] : x[l + k + c - w]; } }
      return vBits(std::move(r));
    }
    if (starts(n, "llvm.umin") || starts(n, "llvm.umax") || starts(n, "llvm.smin") || starts(n, "llvm.smax")) { u8 p = starts(n, "llvm.umin") ? P_ULT : starts(n, "llvm.umax") ? P_UGT : starts(n, "llvm.smin") ? P_SLT : P_SGT; Val c = icmp(p, a[0], a[1], i.ty.lane); BV cb = bv(c), x = bv(a[0]), y = bv(a[1]), r(x.size()); for (u32 k = 0; k < x.size(); k++) r[k] = bMux(cb[k / i.ty.lane], x[k], y[k]); return vBits(std::move(r)); }
    if (starts(n, "llvm.x86.mmx.")) {
      if (n == "llvm.x86.mmx.emms" || n == "llvm.x86.mmx.femms") { mmxDirty = bAnd(mmxDirty, bNot(mask)); return Val(); }
      std::string q = n.substr(13);
      if (q == "pand") return bitop('&'); if (q == "por") return bitop('|'); if (q == "pxor") return bitop('^');
      if (q == "pandn") { BV x = bv(a[0]); for (auto &b : x) b = bNot(b); BV r; bitwise('&', x, bv(a[1]), r); return vBits(std::move(r)); }
      if (q == "pslli.q") return shiftLanes(I_SHL, 64); if (q == "psrli.q") return shiftLanes(I_LSHR, 64); if (q == "pslli.d") return shiftLanes(I_SHL, 32); if (q == "psrli.d") return shiftLanes(I_LSHR, 32); if (q == "pslli.w") return shiftLanes(I_SHL, 16); if (q == "psrli.w") return shiftLanes(I_LSHR, 16);
      u32 lane = q.find(".b") != std::string::npos || q.find("bw") != std::string::npos ? 8 : q.find("wd") != std::string::npos || q.find(".w") != std::string::npos ? 16 : 32;
      if (starts(q, "punpckl") || starts(q, "punpckh")) { lane = q.find("bw") != std::string::npos ? 8 : q.find("wd") != std::string::npos ? 16 : 32; BV x = bv(a[0]), y = bv(a[1]), r(64); u32 h = starts(q, "punpckh") ? 32 / lane : 0; for (u32 k = 0; k < 32 / lane; k++) for (u32 b = 0; b < lane; b++) { r[2 * k * lane + b] = x[(h + k) * lane + b]; r[(2 * k + 1) * lane + b] = y[(h + k) * lane + b]; } return vBits(std::move(r)); }
      if (starts(q, "padd.")) { lane = q == "padd.b" ? 8 : q == "padd.w" ? 16 : q == "padd.d" ? 32 : 64; return arith(I_ADD, bv(a[0]), bv(a[1]), lane, &i); }
      throw Unsupported("intrinsic " + n + " at " + where());
    }
    if (n == "llvm.x86.ssse3.pshuf.b.128" || n == "llvm.x86.avx2.pshuf.b") {
      BV x = bv(a[0]), y = bv(a[1]), r(x.size());
      for (u32 k = 0; k < x.size() / 8; k++) { u32 s = 0; for (u32 b = 0; b < 8; b++) { if (y[k * 8 + b] > 1) throw Unsupported("shuffle control at " + where()); s |= (u32)y[k * 8 + b] << b; } u32 lane = k / 16 * 16; for (u32 b = 0; b < 8; b++) r[k * 8 + b] = s & 0x80 ? 0 : x[(lane + (s & 15)) * 8 + b]; }
      return vBits(std::move(r));
    }
    if (starts(n, "llvm.x86.sse2.") || starts(n, "llvm.x86.avx2.")) {
      std::string q = n.substr(14);
      if (q == "pslli.q") return shiftLanes(I_SHL, 64); if (q == "psrli.q") return shiftLanes(I_LSHR, 64); if (q == "pslli.d") return shiftLanes(I_SHL, 32); if (q == "psrli.d") return shiftLanes(I_LSHR, 32); if (q == "pslli.w") return shiftLanes(I_SHL, 16); if (q == "psrli.w") return shiftLanes(I_LSHR, 16); if (q == "psrai.d") return shiftLanes(I_ASHR, 32); if (q == "psrai.w") return shiftLanes(I_ASHR, 16);
      if (q == "gather.d.d.256" || q == "gather.d.d") {
        BV pass = bv(a[0]), idx = bv(a[2]), mk_ = bv(a[3]); u32 lanes = idx.size() / 32; BV r(lanes * 32); if (!a[4].isConst()) throw Unsupported("gather scale");
        Ty t; t.k = TY_INT; t.bits = t.lane = 32; t.bytes = 4;
        for (u32 l = 0; l < lanes; l++) {
          Bit mb = mk_[l * 32 + 31]; if (mb > 1) throw Unsupported("gather mask"); if (!mb) { std::copy(pass.begin() + l * 32, pass.begin() + l * 32 + 32, r.begin() + l * 32); continue; }
          Val p = addOff(a[1], vBits(BV(idx.begin() + l * 32, idx.begin() + l * 32 + 32)), (i64)a[4].c, 32); Val v = load(p, t, 1, 0); BV vb = bv(v); std::copy(vb.begin(), vb.end(), r.begin() + l * 32);
        }
        return vBits(std::move(r));
      }
      throw Unsupported("intrinsic " + n + " at " + where());
    }
    if (starts(n, "llvm.ppc.altivec.")) {   // big-endian element order; whole-register shifts work on the 128-bit big-endian integer
      std::string q = n.substr(17); u32 lane = i.ty.lane;
      auto mem = [&](const Val &v) { BV r; memOrder(bv(v), lane, m.big, r); return r; };
      auto reg = [&](const BV &r) { BV x; memOrder(r, lane, m.big, x); return vBits(std::move(x)); };
      if (q == "lvx" || q == "lvxl") return load(a[0], i.ty, 16, 0);
      if (q == "vrlb") { BV x = bv(a[0]), s = bv(a[1]), r(x.size()); for (u32 l = 0; l < x.size(); l += 8) { u32 c = 0; for (u32 b = 0; b < 3; b++) { if (s[l + b] > 1) throw Unsupported("rotation amount at " + where()); c |= (u32)s[l + b] << b; } for (u32 b = 0; b < 8; b++) r[l + (b + c) % 8] = x[l + b]; } return vBits(std::move(r)); }
      if (q == "vsl" || q == "vsr" || q == "vslo" || q == "vsro") {
        if (!m.big) throw Unsupported("little-endian AltiVec shift"); BV x = mem(a[0]), y = mem(a[1]), r(128, 0); u32 c = 0;
        if (q.size() == 3) { for (u32 k = 0; k < 16; k++) { u32 v = 0; for (u32 b = 0; b < 3; b++) { if (y[k * 8 + b] > 1) throw Unsupported("shift amount at " + where()); v |= (u32)y[k * 8 + b] << b; } if (k && v != c) throw Unsupported("unequal shift amounts at " + where()); c = v; } }
        else for (u32 b = 3; b < 7; b++) { if (y[120 + b] > 1) throw Unsupported("shift amount at " + where()); c |= (u32)y[120 + b] << b; }
        auto at = [](u32 p) { return p / 8 * 8 + 7 - p % 8; };   // p: bit number from the most significant end
        for (u32 p = 0; p < 128; p++) { i64 s = q[2] == 'l' ? (i64)p + c : (i64)p - c; if (s >= 0 && s < 128) r[at(p)] = x[at((u32)s)]; }
        N_BITOPS += 128; return reg(r);
      }
      throw Unsupported("intrinsic " + n + " at " + where());
    }
    if (starts(n, "llvm.aarch64.neon.ld2.") || starts(n, "llvm.arm.neon.vld2.")) {
      Ty t = i.ty; if (t.k != TY_AGG || t.sub.size() != 2) throw Unsupported("ld2"); Ty full = t.sub[0]; full.bits *= 2; full.bytes *= 2; u32 al = 1; if (starts(n, "llvm.arm") && a.size() > 1 && a[1].isConst()) al = a[1].c;
      BV v = bv(load(a[0], full, al, 0)); u32 l = t.sub[0].lane, nl = t.sub[0].bits / l; BV r0(nl * l), r1(nl * l); for (u32 k = 0; k < nl; k++) for (u32 b = 0; b < l; b++) { r0[k * l + b] = v[2 * k * l + b]; r1[k * l + b] = v[(2 * k + 1) * l + b]; }
      Val r; r.k = Val::AGG; r.n = t.bits; r.x = Ref<Ext>(new Ext); r.x->v = {vBits(std::move(r0)), vBits(std::move(r1))}; return r;
    }
    throw Unsupported("intrinsic " + n + " at " + where());
  }
  auto heap = [&](const Val &sz, u64 align, const std::string &fam) -> Val {
    if (!sz.isConst()) throw Unsupported("allocation size at " + where());
    allocLog.push_back(fam + ":" + std::to_string(sz.c) + ":" + std::to_string(align));
    if (allocFail) { Val p = vPtr(0, 0); p.n = m.ptrbits; return p; }
    if (sz.c > (16u << 20)) throw Unsupported("large allocation"); int id = newObj("heap object allocated in " + (curF ? curF->name : ""), O_HEAP, sz.c, align); o[id].family = fam; Val p = vPtr(id, 0); p.n = m.ptrbits; return p;
  };
  u64 defAl = m.ptrbits == 64 ? 16 : 8; extCalls.push_back({n, where()});
  if (n == "__assert_fail" || n == "abort" || n == "exit" || n == "_Exit") { event("abort", "program is stopped by " + std::string(n == "__assert_fail" ? "an assertion" : n + "()"), mask); aborted = bOr(aborted, mask); mask = 0; return Val(); }
  if (n == "malloc") return heap(a[0], defAl, "malloc");
  if (n == "calloc") { if (!a[0].isConst() || !a[1].isConst()) throw Unsupported("calloc"); Val p = heap(vConst(a[0].c * a[1].c, 64), defAl, "malloc"); if (p.obj) std::fill(o[p.obj].b.begin(), o[p.obj].b.end(), 0); return p; }
  if (n == "_mm_malloc" || n == "aligned_alloc" || n == "memalign") {
    const Val &sz = n == "_mm_malloc" ? a[0] : a[1], &al = n == "_mm_malloc" ? a[1] : a[0]; if (!al.isConst()) throw Unsupported("alignment"); u64 q = al.c;
    if (!q || (q & (q - 1))) { event("alloc", n + " called with alignment " + std::to_string(q), mask); }
    if (n == "aligned_alloc" && sz.isConst() && q && sz.c % q) event("alloc", "aligned_alloc size is not a multiple of the alignment", mask);
    return heap(sz, std::max<u64>(q, 1), n == "_mm_malloc" ? "_mm_malloc" : "malloc");
  }
  if (n == "posix_memalign") {
    if (!a[1].isConst()) throw Unsupported("alignment"); u64 q = a[1].c; if (!q || (q & (q - 1)) || q % (m.ptrbits / 8)) { event("alloc", "posix_memalign called with alignment " + std::to_string(q) + ", which it refuses", mask); return vConst(22, 32); }
    Val p = heap(a[2], q, "malloc"); Ty t; t.k = TY_PTR; t.bits = t.lane = m.ptrbits; t.bytes = m.ptrbits / 8; if (allocFail) return vConst(12, 32); store(a[0], p, t, 1, 0); return vConst(0, 32);
  }
  if (n == "free" || n == "_mm_free") {
    std::vector<std::pair<Bit, Val>> l; if (!expand(a[0], l)) throw Unsupported("free"); 
    for (auto &q : l) {
      Bit mm = bAnd(mask, q.first); if (!mm) continue; int id = q.second.obj; if (id == 0) { if (q.second.off) event("alloc-pair", n + "() of an invalid pointer", mm); continue; }
      Obj &ob = o[id]; std::string fam = n == "free" ? "malloc" : "_mm_malloc";
      if (ob.kind != O_HEAP || q.second.off) event("alloc-pair", n + "() of a pointer that no allocation returned", mm); else if (ob.freed) event("alloc-pair", n + "() of memory already released", mm); else if (ob.family != fam) event("alloc-pair", n + "() of memory obtained from " + ob.family + "()", mm); else ob.freed = true;
    }
    return Val();
  }
  if (n == "memcpy" || n == "memmove") { memcpyOp(a[0], a[1], a[2], n == "memmove"); return a[0]; }
  if (n == "memset" || n == "explicit_bzero") { if (n == "memset") memsetOp(a[0], a[1], a[2]); else memsetOp(a[0], vConst(0, 8), a[1]); return a[0]; }
  if (n == "bzero") { memsetOp(a[0], vConst(0, 8), a[1]); return Val(); }
  if (n == "memcmp" || n == "bcmp") {
    if (!a[2].isConst() || a[2].c > 4096) throw Unsupported("memcmp"); Ty t; t.k = TY_INT; t.bits = t.lane = 8; t.bytes = 1; Bit lt = 0, gt = 0, eq = 1;
    for (u64 k = 0; k < a[2].c; k++) { Val x = load(addOff(a[0], vConst(k, 64), 1, 64), t, 1, 0), y = load(addOff(a[1], vConst(k, 64), 1, 64), t, 1, 0); Bit l = bv(icmp(P_ULT, x, y, 8))[0], g = bv(icmp(P_UGT, x, y, 8))[0]; lt = bOr(lt, bAnd(eq, l)); gt = bOr(gt, bAnd(eq, g)); eq = bAnd(eq, bNot(bOr(l, g))); }
    BV r(32, lt); r[0] = bOr(lt, gt); return vBits(std::move(r));
  }
  if (n == "__errno_location") { static Interp *owner; static int id; if (owner != this) { owner = this; id = newObj("errno", O_OTHER, 4, 4); } Val p = vPtr(id, 0); p.n = m.ptrbits; return p; }
  throw Unsupported("external function " + n + " at " + where());
}
