// Dependency analysis of the single-packet interface. The length, pointers and counters are followed exactly; payload
// and key bytes are replaced by the set of inputs they may depend on: the key, the first block, and other blocks (a few
// by number, otherwise the interval that holds them). The sets only ever err on the large side, so an input DVB-CSA
// requires that is missing from an output byte's set is certainly without influence on that byte.
#include "deps.h"
#include <algorithm>
#include <cstring>
#include <functional>
#include <set>
#include <stdexcept>
#include <unordered_map>
namespace {
struct Unsup : std::runtime_error { using std::runtime_error::runtime_error; };
struct Halt : std::runtime_error { using std::runtime_error::runtime_error; };

// ---- dependency sets
enum { F_KEY = 1, F_ZERO = 2, F_HULL = 4 };
struct Dep { u8 f = 0; u8 n = 0; u32 b[6]; };                        // hull: b[0]..b[1]
std::vector<Dep> D; std::unordered_map<std::string, u32> dIds; struct UC { u64 k; u32 r; }; std::vector<UC> ucache;
u32 dIntern(const Dep &d) {
  std::string k((const char *)&d.f, 1); k += (char)d.n; k.append((const char *)d.b, 4 * (d.f & F_HULL ? 2 : d.n));
  auto it = dIds.find(k); if (it != dIds.end()) return it->second; D.push_back(d); return dIds[k] = D.size() - 1;
}
void dReset() { D.clear(); dIds.clear(); ucache.assign(1 << 16, {~0ull, 0}); dIntern(Dep()); }
u32 dUnion(u32 a, u32 b) {
  if (a == b || !b) return a; if (!a) return b; if (a > b) std::swap(a, b);
  u64 k = (u64)a << 32 | b; auto &c = ucache[(k * 0x9e3779b97f4a7c15ull) >> 48]; if (c.k == k) return c.r;
  const Dep x = D[a], y = D[b]; Dep r; r.f = (x.f | y.f) & (F_KEY | F_ZERO);
  auto lo = [](const Dep &d) { return d.b[0]; }; auto hi = [](const Dep &d) { return d.f & F_HULL ? d.b[1] : d.b[d.n - 1]; }; auto any = [](const Dep &d) { return d.n || (d.f & F_HULL); };
  bool hull = (x.f | y.f) & F_HULL;
  if (!hull) { u32 t[12], n = std::merge(x.b, x.b + x.n, y.b, y.b + y.n, t) - t; n = std::unique(t, t + n) - t; if (n > 6) hull = true; else { r.n = n; memcpy(r.b, t, n * 4); } }
  if (hull) { r.f |= F_HULL; r.n = 0; u32 l = ~0u, h = 0; for (auto *d : {&x, &y}) if (any(*d)) { l = std::min(l, lo(*d)); h = std::max(h, hi(*d)); } r.b[0] = l; r.b[1] = h; }
  u32 id = dIntern(r); c = {k, id}; return id;
}
bool dHas(u32 d, u32 blk) { const Dep &x = D[d]; if (!blk) return x.f & F_ZERO; if (x.f & F_HULL) return blk >= x.b[0] && blk <= x.b[1]; for (u32 i = 0; i < x.n; i++) if (x.b[i] == blk) return true; return false; }
u32 dBlock(u32 blk) { Dep d; if (!blk) d.f = F_ZERO; else { d.n = 1; d.b[0] = blk; } return dIntern(d); }
std::string dText(u32 d) { const Dep &x = D[d]; std::string s; auto add = [&](const std::string &t) { s += (s.empty() ? "" : ", ") + t; }; if (x.f & F_KEY) add("the key"); if (x.f & F_ZERO) add("block 0"); if (x.f & F_HULL) add("blocks " + std::to_string(x.b[0]) + " to " + std::to_string(x.b[1])); for (u32 i = 0; i < x.n; i++) add("block " + std::to_string(x.b[i])); return s.empty() ? "no input" : s; }

// ---- values and memory
enum : u8 { V_NUM, V_DATA, V_PTR, V_FUN };
struct V { u8 k = V_DATA; u32 dep = 0; int obj = 0; u64 c = 0; bool wild = false; };   // wild: pointer with a data-dependent offset
V vNum(u64 c) { V v; v.k = V_NUM; v.c = c; return v; }
V vData(u32 d) { V v; v.k = V_DATA; v.dep = d; return v; }
V vPtr(int o, u64 off) { V v; v.k = V_PTR; v.obj = o; v.c = off; return v; }
struct Obj { std::string name; u64 size = 0; bool live = true; std::vector<u8> val, st; std::vector<u32> dep; std::unordered_map<u64, V> ptrs; u32 all = 0; bool allValid = false; };   // st: 0 never written, 1 number, 2 data, 3 pointer
u64 maskTo(u64 c, u32 n) { return n >= 64 ? c : c & ((1ull << n) - 1); }
i64 sx(u64 c, u32 n) { return n >= 64 ? (i64)c : (i64)(c << (64 - n)) >> (64 - n); }

struct Ana {
  Module &m; std::vector<Obj> o; std::vector<int> gobj; u64 steps = 0, fuel = 0, accesses = 0; u64 len = 0; DepResult &R; std::vector<V> K; u32 weak = 0, ctrl = 0, depth = 0; const Instr *cur = nullptr; const Func *curF = nullptr;
  Ana(Module &m, DepResult &R) : m(m), R(R) { gobj.assign(m.g.size(), -1); Obj z; z.name = "null"; o.push_back(z); K.resize(m.k.size()); for (u32 i = 0; i < m.k.size(); i++) K[i] = conv(m.k[i]); for (u32 g = 0; g < m.g.size(); g++) glob(g); }
  std::string where() { std::string s; if (cur) { s = cur->file < m.files.size() ? m.files[cur->file] : ""; auto p = s.rfind('/'); if (p != std::string::npos) s = s.substr(p + 1); s += ":" + std::to_string(cur->line); } return s + " (" + (curF ? curF->name : "") + ")"; }
  void find(const std::string &rule, const std::string &text) { for (auto &f : R.found) if (f.rule == rule && f.len == len) return; R.found.push_back({len, rule, where(), text}); }
  V conv(const KVal &k) {
    switch (k.k) {
    case KVal::NULLP: return vPtr(0, 0);
    case KVal::GLOBAL: { V v = vPtr(-1 - (int)k.id, k.off); return v; }
    case KVal::FUNC: { V v; v.k = V_FUN; v.obj = k.id; return v; }
    case KVal::INT: if (k.bits <= 64 && k.undef.empty()) return vNum(k.v[0]); return vData(0);
    default: return vData(0);
    }
  }
  int newObj(const std::string &n, u64 size) { Obj x; x.name = n; x.size = size; x.val.assign(size, 0); x.st.assign(size, 0); x.dep.assign(size, 0); o.push_back(std::move(x)); return o.size() - 1; }
  int glob(u32 g) {
    if (gobj[g] >= 0) return gobj[g]; auto &G = m.g[g]; int id = newObj(G.name, G.size); gobj[g] = id;
    if (!G.defined) { std::fill(o[id].st.begin(), o[id].st.end(), 2); return id; }
    for (u64 i = 0; i < G.size; i++) { o[id].st[i] = 1; o[id].val[i] = i < G.bytes.size() ? G.bytes[i] : 0; }
    for (auto &r : G.rel) { V v; if (r.func) { v.k = V_FUN; v.obj = r.id; } else v = vPtr(-1 - (int)r.id, r.add); o[id].ptrs[r.off] = v; for (u32 b = 0; b < m.ptrbits / 8 && r.off + b < G.size; b++) o[id].st[r.off + b] = 3; }
    return id;
  }
  V fix(V v) { if (v.k == V_PTR && v.obj < 0) v.obj = glob(-1 - v.obj); return v; }
  struct Fr { const Func *f; std::vector<V> r; std::vector<int> al; };
  V op(Fr &f, int a) { return a >= 0 ? f.r[a] : fix(K[~a]); }
  bool bounds(const V &p, u64 n, bool wr) {
    accesses++; R.accesses++; if (p.k == V_NUM || (p.k == V_PTR && p.obj == 0)) { find("null", std::string(wr ? "write" : "read") + " through a null or invented pointer"); throw Halt("invalid pointer"); }
    if (p.k != V_PTR) throw Unsup("address that is not a pointer at " + where());
    Obj &ob = o[p.obj]; if (!ob.live) { find("uaf", (wr ? "write to " : "read of ") + ob.name + " after its lifetime ended"); throw Halt("dead object"); }
    if (p.wild) return true;
    if ((i64)p.c < 0 || p.c + n > ob.size || p.c + n < p.c) { if (!weak) { find(wr ? "oob-write" : "oob-read", std::string(wr ? "write outside " : "read outside ") + ob.name + " (" + std::to_string(ob.size) + " bytes) at offset " + std::to_string((i64)p.c)); throw Halt("out of bounds"); } throw Unsup("conditional access out of bounds at " + where()); }
    return true;
  }
  u32 whole(int id) { Obj &ob = o[id]; if (!ob.allValid) { ob.all = 0; for (u64 i = 0; i < ob.size; i++) if (ob.st[i] == 2) ob.all = dUnion(ob.all, ob.dep[i]); ob.allValid = true; } return ob.all; }
  V load(const V &p, const Ty &t) {
    if (t.k == TY_AGG) throw Unsup("aggregate load"); u32 n = t.bytes; bounds(p, n, false); Obj &ob = o[p.obj];
    if (p.wild) { if (!ob.ptrs.empty()) throw Unsup("data-dependent load from an object that holds pointers at " + where()); return vData(dUnion(p.dep, whole(p.obj))); }
    bool num = t.k == TY_INT && !t.vec && n <= 8; u32 d = 0; u64 c = 0;
    if (ob.st[p.c] == 3 && n * 8 == m.ptrbits) { auto it = ob.ptrs.find(p.c); if (it != ob.ptrs.end()) { it->second = fix(it->second); return it->second; } }
    for (u32 i = 0; i < n; i++) { u8 s = ob.st[p.c + i]; if (s == 1) { if (num) c |= (u64)ob.val[p.c + i] << 8 * (m.big ? n - 1 - i : i); } else { num = false; if (s == 2) d = dUnion(d, ob.dep[p.c + i]); } }
    if (t.k == TY_PTR) { if (num || c == 0) { bool z = true; for (u32 i = 0; i < n; i++) if (ob.st[p.c + i] != 1 || ob.val[p.c + i]) z = false; if (z) return vPtr(0, 0); } throw Unsup("pointer made of other data at " + where()); }
    if (num) return vNum(maskTo(c, t.bits)); return vData(d);
  }
  void putByte(Obj &ob, u64 at, u8 s, u8 val, u32 dep) {
    if (weak) { if (s == ob.st[at] && s == 1 && ob.val[at] == val) return; u32 d = dUnion(dep, ctrl); if (ob.st[at] == 2) d = dUnion(d, ob.dep[at]); else if (ob.st[at] == 3) throw Unsup("conditional overwrite of a pointer at " + where()); ob.st[at] = 2; ob.dep[at] = d; }
    else { ob.st[at] = s; ob.val[at] = val; ob.dep[at] = dep; }
  }
  void dropPtrs(Obj &ob, u64 at, u64 n) { if (ob.ptrs.empty()) return; for (auto it = ob.ptrs.begin(); it != ob.ptrs.end();) { u64 a = it->first, b = a + m.ptrbits / 8; if (a < at + n && at < b) { for (u64 i = a; i < b && i < ob.size; i++) if (ob.st[i] == 3) { ob.st[i] = 2; ob.dep[i] = 0; } it = ob.ptrs.erase(it); } else ++it; } }
  void store(const V &p, const V &v, const Ty &t) {
    if (t.k == TY_AGG) throw Unsup("aggregate store"); u32 n = t.bytes; bounds(p, n, true); Obj &ob = o[p.obj]; ob.allValid = false;
    if (p.wild) { if (!ob.ptrs.empty() || v.k == V_PTR || v.k == V_FUN) throw Unsup("data-dependent store at " + where()); u32 d = dUnion(p.dep, dUnion(v.k == V_DATA ? v.dep : 0, ctrl)); for (u64 i = 0; i < ob.size; i++) { u32 q = ob.st[i] == 2 ? dUnion(ob.dep[i], d) : d; ob.st[i] = 2; ob.dep[i] = q; } return; }
    if (v.k == V_PTR || v.k == V_FUN) { if (n * 8 != m.ptrbits || weak || v.wild) throw Unsup("store of a pointer at " + where()); dropPtrs(ob, p.c, n); for (u32 i = 0; i < n; i++) ob.st[p.c + i] = 3; ob.ptrs[p.c] = v; return; }
    dropPtrs(ob, p.c, n);
    for (u32 i = 0; i < n; i++) { if (v.k == V_NUM && n <= 8) putByte(ob, p.c + i, 1, v.c >> 8 * (m.big ? n - 1 - i : i), 0); else putByte(ob, p.c + i, 2, 0, v.k == V_NUM ? 0 : v.dep); }
  }
  void copy(const V &d, const V &s, u64 n) {
    if (!n) return; bounds(d, n, true); bounds(s, n, false); if (d.wild || s.wild) throw Unsup("copy at a data-dependent address at " + where()); steps += n / 8;
    Obj &X = o[d.obj]; X.allValid = false; struct B { u8 st, val; u32 dep; }; std::vector<B> t(n); std::vector<std::pair<u64, V>> ps; { Obj &Y = o[s.obj]; for (u64 i = 0; i < n; i++) t[i] = {Y.st[s.c + i], Y.val[s.c + i], Y.dep[s.c + i]}; for (auto &q : Y.ptrs) if (q.first >= s.c && q.first + m.ptrbits / 8 <= s.c + n) ps.push_back({q.first - s.c, q.second}); }
    dropPtrs(X, d.c, n); for (u64 i = 0; i < n; i++) { if (t[i].st == 3) { if (weak) throw Unsup("conditional copy of pointers"); X.st[d.c + i] = 3; } else putByte(X, d.c + i, t[i].st == 0 ? 2 : t[i].st, t[i].val, t[i].st == 2 ? t[i].dep : 0); }
    for (auto &q : ps) X.ptrs[d.c + q.first] = q.second;
  }
  V unite(const V &a, const V &b, u32 cd) {                          // join of two sides of a branch that depends on data
    if (a.k == V_NUM && b.k == V_NUM && a.c == b.c) return a; if (a.k == V_PTR && b.k == V_PTR && a.obj == b.obj) { if (a.c == b.c && !a.wild && !b.wild) return a; V r = a; r.wild = true; r.dep = dUnion(cd, dUnion(a.wild ? a.dep : 0, b.wild ? b.dep : 0)); return r; }
    if (a.k == V_PTR || b.k == V_PTR || a.k == V_FUN || b.k == V_FUN) { if (a.k == V_FUN && b.k == V_FUN && a.obj == b.obj) return a; throw Unsup("pointer chosen by data at " + where()); }
    return vData(dUnion(cd, dUnion(a.k == V_DATA ? a.dep : 0, b.k == V_DATA ? b.dep : 0)));
  }
  u32 depOf(const V &v) { return v.k == V_DATA || (v.k == V_PTR && v.wild) ? v.dep : 0; }
  V bin(const Instr &i, V a, V b) {
    u32 n = i.ty.lane; if (a.k == V_PTR || b.k == V_PTR) {
      if (i.op == I_ADD && !(a.k == V_PTR && b.k == V_PTR)) { if (b.k == V_PTR) std::swap(a, b); return move(a, b, 1, n); }
      if (i.op == I_SUB && a.k == V_PTR && b.k == V_PTR && a.obj == b.obj && !a.wild && !b.wild) return vNum(maskTo(a.c - b.c, n));
      if (i.op == I_SUB && a.k == V_PTR && b.k == V_NUM) { a.c -= b.c; return a; }
      if (i.op == I_AND && a.k == V_PTR && b.k == V_NUM && b.c < 16 && !a.wild) return vNum(a.c & b.c);   // objects are aligned to 16
      throw Unsup("arithmetic on an address at " + where());
    }
    if (i.ty.vec || i.ty.bits > 64 || a.k != V_NUM || b.k != V_NUM) {
      if (!i.ty.vec) { if (i.op == I_AND && ((a.k == V_NUM && !a.c) || (b.k == V_NUM && !b.c))) return vNum(0); if (i.op == I_MUL && ((a.k == V_NUM && !a.c) || (b.k == V_NUM && !b.c))) return vNum(0); }
      return vData(dUnion(depOf(a), depOf(b)));
    }
    u64 x = a.c, y = b.c, r = 0;
    switch (i.op) {
    case I_ADD: r = x + y; break; case I_SUB: r = x - y; break; case I_MUL: r = x * y; break; case I_AND: r = x & y; break; case I_OR: r = x | y; break; case I_XOR: r = x ^ y; break;
    case I_UDIV: case I_UREM: if (!y) { find("division", "division by zero"); throw Halt("division"); } r = i.op == I_UDIV ? x / y : x % y; break;
    case I_SDIV: case I_SREM: { i64 p = sx(x, n), q = sx(y, n); if (!q) { find("division", "division by zero"); throw Halt("division"); } if (q == -1) r = i.op == I_SDIV ? (u64)-p : 0; else r = i.op == I_SDIV ? p / q : p % q; break; }
    case I_SHL: if (y >= n) return vData(0); r = x << y; break; case I_LSHR: if (y >= n) return vData(0); r = x >> y; break; case I_ASHR: if (y >= n) return vData(0); r = sx(x, n) >> y; break;
    default: throw Unsup("operation");
    }
    return vNum(maskTo(r, n));
  }
  V move(V p, const V &ix, i64 scale, u32 w) {
    if (p.k == V_NUM) { if (ix.k == V_NUM) return vNum(p.c + sx(ix.c, w) * scale); throw Unsup("address"); }
    if (p.k != V_PTR) throw Unsup("address that is not a pointer at " + where());
    if (ix.k == V_NUM) { p.c += sx(ix.c, w) * scale; return p; } if (ix.k != V_DATA) throw Unsup("index"); if (!scale) return p; p.dep = dUnion(p.wild ? p.dep : 0, ix.dep); p.wild = true; return p;
  }
  V cmp(const Instr &i, const V &a, const V &b) {
    u32 n = i.argty.lane;
    if (a.k == V_PTR && b.k == V_PTR && !a.wild && !b.wild) { if (i.pred == P_EQ) return vNum(a.obj == b.obj && a.c == b.c); if (i.pred == P_NE) return vNum(!(a.obj == b.obj && a.c == b.c)); if (a.obj == b.obj) { u64 x = a.c, y = b.c; return vNum(i.pred == P_UGT || i.pred == P_SGT ? (i64)x > (i64)y : i.pred == P_UGE || i.pred == P_SGE ? (i64)x >= (i64)y : i.pred == P_ULT || i.pred == P_SLT ? (i64)x < (i64)y : (i64)x <= (i64)y); } throw Unsup("pointer comparison at " + where()); }
    if (a.k == V_PTR || b.k == V_PTR) { const V &p = a.k == V_PTR ? a : b, &q = a.k == V_PTR ? b : a; if (q.k == V_NUM && !q.c && (i.pred == P_EQ || i.pred == P_NE)) return vNum((p.obj == 0) == (i.pred == P_EQ)); throw Unsup("pointer comparison at " + where()); }
    if (i.argty.vec || i.argty.bits > 64 || a.k != V_NUM || b.k != V_NUM) return vData(dUnion(depOf(a), depOf(b)));
    u64 x = a.c, y = b.c; i64 s = sx(x, n), t = sx(y, n); bool r = false;
    switch (i.pred) { case P_EQ: r = x == y; break; case P_NE: r = x != y; break; case P_UGT: r = x > y; break; case P_UGE: r = x >= y; break; case P_ULT: r = x < y; break; case P_ULE: r = x <= y; break; case P_SGT: r = s > t; break; case P_SGE: r = s >= t; break; case P_SLT: r = s < t; break; case P_SLE: r = s <= t; break; }
    return vNum(r);
  }
  V ext(Fr &f, const Instr &i) {
    const std::string &n = i.name; auto st = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; }; auto A = [&](u32 k) { return op(f, i.a[k]); };
    if (st("llvm.lifetime.start")) { V p = A(1); if (p.k == V_PTR && p.obj > 0 && !weak) { Obj &ob = o[p.obj]; std::fill(ob.st.begin(), ob.st.end(), 0); ob.ptrs.clear(); ob.allValid = false; } return V(); }
    if (st("llvm.lifetime.end") || st("llvm.assume") || st("llvm.prefetch") || st("llvm.dbg") || st("llvm.donothing") || st("llvm.experimental.noalias") || n == "llvm.x86.mmx.emms") return V();
    auto num = [&](const V &v) { if (v.k != V_NUM) throw Unsup("size that depends on data at " + where()); return v.c; };
    if (st("llvm.memcpy") || st("llvm.memmove") || n == "memcpy" || n == "memmove") { copy(A(0), A(1), num(A(2))); return A(0); }
    if (st("llvm.memset") || n == "memset") { V d = A(0), c = A(1); u64 k = num(A(2)); if (!k) return d; bounds(d, k, true); if (d.wild) throw Unsup("fill address"); Obj &X = o[d.obj]; X.allValid = false; dropPtrs(X, d.c, k); steps += k / 8; for (u64 q = 0; q < k; q++) putByte(X, d.c + q, c.k == V_NUM ? 1 : 2, c.c, depOf(c)); return d; }
    if (st("llvm.expect")) return A(0);
    if (st("llvm.bswap") || st("llvm.bitreverse") || st("llvm.ctpop") || st("llvm.ctlz") || st("llvm.cttz")) { V a = A(0); if (a.k != V_NUM || i.ty.vec || i.ty.bits > 64) return vData(depOf(a)); if (st("llvm.bswap")) { u64 r = 0; for (u32 b = 0; b < i.ty.bits; b += 8) r |= (a.c >> b & 255) << (i.ty.bits - 8 - b); return vNum(r); } throw Unsup(n); }
    if (st("llvm.fshl") || st("llvm.fshr")) { V a = A(0), b = A(1), c = A(2); u32 w = i.ty.lane; if (a.k == V_NUM && b.k == V_NUM && c.k == V_NUM && !i.ty.vec && w <= 64) { u64 s = c.c % w; if (st("llvm.fshr")) { if (!s) return b; return vNum(maskTo(b.c >> s | a.c << (w - s), w)); } if (!s) return a; return vNum(maskTo(a.c << s | b.c >> (w - s), w)); } return vData(dUnion(depOf(a), dUnion(depOf(b), depOf(c)))); }
    if (st("llvm.umin") || st("llvm.umax") || st("llvm.smin") || st("llvm.smax")) { V a = A(0), b = A(1); if (a.k == V_NUM && b.k == V_NUM && !i.ty.vec) { bool lt = st("llvm.s") ? sx(a.c, i.ty.bits) < sx(b.c, i.ty.bits) : a.c < b.c; bool mn = n[6] == 'm' && n[7] == 'i'; mn = n.find("min") != std::string::npos; return mn == lt ? a : b; } return vData(dUnion(depOf(a), depOf(b))); }
    if (n == "malloc" || n == "calloc" || n == "aligned_alloc" || n == "memalign" || n == "_mm_malloc") { u64 s = n == "calloc" ? num(A(0)) * num(A(1)) : n == "malloc" || n == "_mm_malloc" ? num(A(0)) : num(A(1)); if (s > (1u << 26)) throw Unsup("large allocation"); int id = newObj("heap object", s); if (n == "calloc") std::fill(o[id].st.begin(), o[id].st.end(), 1); return vPtr(id, 0); }
    if (n == "posix_memalign") { int id = newObj("heap object", num(A(2))); Ty t; t.k = TY_PTR; t.bits = m.ptrbits; t.bytes = m.ptrbits / 8; store(A(0), vPtr(id, 0), t); return vNum(0); }
    if (n == "free" || n == "_mm_free") { V p = A(0); if (p.k == V_PTR && p.obj > 0) o[p.obj].live = false; return V(); }
    if (n == "memcmp" || n == "bcmp") { V a = A(0), b = A(1); u64 k = num(A(2)); if (!k) return vNum(0); bounds(a, k, false); bounds(b, k, false); u32 d = 0; for (u64 q = 0; q < k; q++) { d = dUnion(d, o[a.obj].st[a.c + q] == 2 ? o[a.obj].dep[a.c + q] : 0); d = dUnion(d, o[b.obj].st[b.c + q] == 2 ? o[b.obj].dep[b.c + q] : 0); } return vData(d); }
    if (n == "__assert_fail" || n == "abort") { if (weak) throw Unsup("conditional end of the program"); find("abort", "the program is stopped"); throw Halt("abort"); }
    if (i.ty.k == TY_INT && (st("llvm.x86.") || st("llvm.aarch64.neon.") || st("llvm.arm.neon.") || st("llvm.vector.reduce"))) { u32 d = 0; for (u32 k = 0; k < i.a.size(); k++) { V v = A(k); if (v.k == V_PTR) throw Unsup("intrinsic " + n); d = dUnion(d, depOf(v)); } return vData(d); }
    throw Unsup("external function " + n + " at " + where());
  }
  void exec(Fr &f, const Instr &i) {
    V r;
    switch (i.op) {
    case I_ADD: case I_SUB: case I_MUL: case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: case I_SHL: case I_LSHR: case I_ASHR: case I_AND: case I_OR: case I_XOR: r = bin(i, op(f, i.a[0]), op(f, i.a[1])); break;
    case I_ICMP: r = cmp(i, op(f, i.a[0]), op(f, i.a[1])); break;
    case I_SELECT: { V c = op(f, i.a[0]); V a = op(f, i.a[1]), b = op(f, i.a[2]); if (c.k == V_NUM) r = c.c & 1 ? a : b; else r = unite(a, b, depOf(c)); break; }
    case I_ZEXT: case I_SEXT: case I_TRUNC: { V a = op(f, i.a[0]); if (a.k == V_NUM && !i.ty.vec && i.ty.bits <= 64 && i.argty.bits <= 64) r = vNum(maskTo(i.op == I_SEXT ? (u64)sx(a.c, i.argty.bits) : a.c, i.ty.bits)); else if (a.k == V_PTR) { if (i.op == I_TRUNC && i.ty.bits >= 8 && !a.wild) r = vNum(maskTo(a.c, i.ty.bits)); else r = a; } else r = vData(depOf(a)); break; }
    case I_BITCAST: { V a = op(f, i.a[0]); if (a.k == V_NUM && (i.ty.vec || i.argty.vec)) a = vData(0); r = a; break; }
    case I_PTRTOINT: { V a = op(f, i.a[0]); r = a.k == V_PTR && a.obj == 0 && !a.wild ? vNum(a.c) : a; break; }
    case I_INTTOPTR: case I_FREEZE: r = op(f, i.a[0]); break;
    case I_LOAD: r = load(op(f, i.a[0]), i.ty); break;
    case I_STORE: store(op(f, i.a[1]), op(f, i.a[0]), i.ty); return;
    case I_ALLOCA: { V n = op(f, i.a[0]); if (n.k != V_NUM) throw Unsup("stack object whose size depends on data"); u64 s = (u64)i.off * n.c; if (s > (64u << 20)) throw Unsup("large stack object"); int id = newObj("a local of " + f.f->name, s); f.al.push_back(id); r = vPtr(id, 0); break; }
    case I_GEP: { V p = op(f, i.a[0]); p = move(p, vNum((u64)i.off), 1, 64); for (u32 k = 1; k < i.a.size(); k++) p = move(p, op(f, i.a[k]), (i64)i.imm[2 * (k - 1)], (u32)i.imm[2 * (k - 1) + 1]); if (m.ptrbits == 32) p.c = (u64)(i64)(int32_t)p.c; r = p; break; }
    case I_EXTRELT: case I_INSELT: case I_SHUF: { u32 d = 0; for (u32 k = 0; k < i.a.size() && k < 3; k++) { V v = op(f, i.a[k]); if (v.k == V_PTR || v.k == V_FUN) throw Unsup("vector of pointers"); d = dUnion(d, depOf(v)); } r = vData(d); break; }
    case I_CALL: {
      if (i.callee == -1) { r = ext(f, i); break; }
      int fi = i.callee; std::vector<V> args; u32 na = i.a.size() - (fi == -2); if (fi == -2) { V p = op(f, i.a.back()); if (p.k != V_FUN) throw Unsup("call target at " + where()); fi = p.obj; }
      if (!m.f[fi].defined) throw Unsup("call of " + m.f[fi].name); for (u32 k = 0; k < na; k++) args.push_back(op(f, i.a[k])); args.resize(std::max<size_t>(args.size(), m.f[fi].nparam)); r = call(fi, args); cur = &i; curF = f.f; break;
    }
    case I_NOP: return;
    default: throw Unsup("instruction '" + i.name + "' at " + where());
    }
    if (i.dst >= 0) f.r[i.dst] = r;
  }
  void edge(Fr &f, u32 from, u32 to, std::vector<V> &ph) { auto &B = f.f->b[to]; ph.clear(); for (u32 k = 0; k < B.nphi; k++) { auto &p = B.ins[k]; for (u32 q = 0; q < p.blk.size(); q++) if (p.blk[q] == from) { ph.push_back(op(f, p.a[q])); break; } } if (ph.size() != B.nphi) throw Unsup("phi"); }
  void assign(Fr &f, u32 b, const std::vector<V> &ph) { auto &B = f.f->b[b]; for (u32 k = 0; k < B.nphi; k++) f.r[B.ins[k].dst] = ph[k]; }
  // runs until block `stop` is reached (true; its phi values in ph) or the function returns (false; value in ret)
  bool run(Fr &f, u32 b, int stop, std::vector<V> &ph, V &ret) {
    for (;;) {
      const Block &B = f.f->b[b]; u32 next = 0; bool go = false;
      for (u32 k = B.nphi; k < B.ins.size(); k++) {
        const Instr &i = B.ins[k]; cur = &i; curF = f.f; if (++steps > fuel) { find("fuel", "no end within " + std::to_string(fuel) + " steps"); throw Halt("step budget"); }
        if (i.op == I_BR) { next = i.blk[0]; go = true; break; }
        if (i.op == I_RET) { if (stop >= 0) throw Unsup("return on one side of a data-dependent branch at " + where()); if (!i.a.empty()) ret = op(f, i.a[0]); return false; }
        if (i.op == I_UNREACHABLE) throw Unsup("unreachable point at " + where());
        if (i.op == I_CBR || i.op == I_SWITCH) {
          V c = op(f, i.a[0]); if (c.k == V_PTR) throw Unsup("branch on an address");
          if (c.k == V_NUM) { if (i.op == I_CBR) next = i.blk[c.c & 1 ? 0 : 1]; else { next = i.blk[0]; for (u32 q = 0; q < i.imm.size(); q++) if (i.imm[q] == c.c) { next = i.blk[q + 1]; break; } } go = true; break; }
          int J = B.ipdom; if (J < 0) throw Unsup("control structure at " + where()); std::set<u32> ts(i.blk.begin(), i.blk.end());
          u32 sc = ctrl; ctrl = dUnion(ctrl, c.dep); weak++; if (++depth > 60) throw Unsup("a loop that runs as data says at " + where()); std::vector<V> snap = f.r, acc; bool first = true;
          for (u32 t : ts) { std::vector<V> p; f.r = snap; edge(f, b, t, p); if ((int)t != J) { assign(f, t, p); std::vector<V> q; V rr; run(f, t, J, q, rr); p = q; } if (first) acc = p; else for (u32 k2 = 0; k2 < acc.size(); k2++) acc[k2] = unite(acc[k2], p[k2], ctrl); first = false; }
          f.r = snap; weak--; depth--; ctrl = sc;
          if (J == stop) { ph = acc; return true; } assign(f, J, acc); b = J; goto cont;
        }
        exec(f, i);
      }
      if (!go) throw Unsup("block without end"); { std::vector<V> p; edge(f, b, next, p); if ((int)next == stop) { ph = p; return true; } assign(f, next, p); b = next; }
    cont:;
    }
  }
  u32 nest = 0;
  V call(u32 fi, std::vector<V> &args) {
    Func &F = m.f[fi]; if (++nest > 1000 + 4 * len) { find("fuel", "unbounded recursion"); throw Halt("recursion"); } if (nest > 60000) throw Unsup("deep recursion"); Fr f; f.f = &F; f.r.resize(F.nreg); for (u32 i = 0; i < F.nparam; i++) f.r[i] = args[i]; V ret; std::vector<V> ph; u32 top = o.size(); run(f, 0, -1, ph, ret); nest--;
    for (int a : f.al) { o[a].live = false; std::vector<u8>().swap(o[a].val); std::vector<u8>().swap(o[a].st); std::vector<u32>().swap(o[a].dep); o[a].ptrs.clear(); }
    if (f.al.size() && o.size() == top + f.al.size() && f.al.front() == (int)top && !(ret.k == V_PTR && ret.obj >= (int)top)) o.resize(top);
    return ret;
  }
  V entry(const std::string &n, std::vector<V> a) { auto it = m.fidx.find(n); if (it == m.fidx.end() || !m.f[it->second].defined || m.f[it->second].nparam != a.size()) throw Unsup("entry point " + n); nest = weak = ctrl = depth = 0; return call(it->second, a); }
};
}
void depsRun(Module &m, bool enc, const std::vector<u64> &Ls, u64 fuel, DepResult &R) {
  dReset(); Ana A(m, R); Dep kd; kd.f = F_KEY; u32 K = dIntern(kd);
  try {
    A.fuel = 20000000; V key = A.entry("dvbcsa_key_alloc", {}); if (key.k != V_PTR || key.obj <= 0) throw Unsup("key allocation gives no block");
    int cw = A.newObj("the control word", 8); for (u32 i = 0; i < 8; i++) { A.o[cw].st[i] = 2; A.o[cw].dep[i] = K; } A.entry("dvbcsa_key_set", {vPtr(cw, 0), key});
    u32 keep = A.o.size();
    for (u64 L : Ls) {
      if (!R.nsteps) A.steps = 0; dReset(); K = dIntern(kd); for (auto &ob : A.o) ob.allValid = false;   // set numbers are per length; the key context holds K only
      for (u32 q = 1; q < A.o.size(); q++) for (u64 i = 0; i < A.o[q].st.size(); i++) if (A.o[q].st[i] == 2) A.o[q].dep[i] = K;
      A.len = L; A.steps = 0; A.nest = 0; A.fuel = fuel ? fuel : 200000 + L * 20000; u64 n = L / 8, tail = L % 8; int p = A.newObj("the payload", L);
      for (u64 j = 0; j < L; j++) { A.o[p].st[j] = 2; A.o[p].dep[j] = dBlock(j / 8); }
      try { A.entry(enc ? "dvbcsa_encrypt" : "dvbcsa_decrypt", {key, vPtr(p, 0), vNum(L)}); }
      catch (Halt &h) { R.steps.push_back({L, A.steps}); R.nsteps += A.steps; A.o.resize(std::max<u32>(keep, 1)); R.lengths++; A.weak = A.ctrl = A.depth = 0; continue; }
      R.steps.push_back({L, A.steps}); R.nsteps += A.steps; R.lengths++; R.bytes += L; Obj &ob = A.o[p]; A.cur = nullptr; A.curF = nullptr;
      auto need = [&](u64 j, u32 blk, const char *what) { u32 d = ob.st[j] == 2 ? ob.dep[j] : 0; if (!dHas(d, blk)) A.find("missing", "byte " + std::to_string(j) + " (block " + std::to_string(j / 8) + " of " + std::to_string(n) + ") cannot depend on " + what + (blk && blk != j / 8 ? " (block " + std::to_string(blk) + ")" : "") + "; it depends on " + dText(d)); };
      for (u64 j = 0; j < L; j++) {
        u64 i = j / 8; u32 d = ob.st[j] == 2 ? ob.dep[j] : 0;
        need(j, i, "its own block"); if (!n) continue;
        if (!(D[d].f & F_KEY)) A.find("missing", "byte " + std::to_string(j) + " (block " + std::to_string(i) + " of " + std::to_string(n) + ") cannot depend on the control word; it depends on " + dText(d));
        if (i < n) { if (!enc && i + 1 < n) need(j, i + 1, "the following block"); if (enc && n > 1) { need(j, n - 1, "the last whole block"); need(j, 1, "block 1"); } }
        else if (enc) { need(j, n - 1, "the last whole block"); }
        if (i || (!enc && n > 1)) need(j, 0, "the first block");
      }
      (void)tail; A.o.resize(keep);
    }
  } catch (Unsup &e) { R.status = "unsupported"; R.why = e.what(); } catch (Halt &e) { R.status = "stop"; R.why = e.what(); }
}
std::vector<u64> depsConstants(Module &m) {
  std::set<u64> s; std::set<int> seen; std::vector<int> work; for (auto *n : {"dvbcsa_encrypt", "dvbcsa_decrypt"}) if (m.fidx.count(n)) { work.push_back(m.fidx[n]); seen.insert(m.fidx[n]); }
  while (!work.empty()) { int q = work.back(); work.pop_back(); for (auto &b : m.f[q].b) for (auto &i : b.ins) if (i.op == I_CALL && i.callee >= 0 && seen.insert(i.callee).second) work.push_back(i.callee); }
  for (int q : seen) for (auto &b : m.f[q].b) for (auto &i : b.ins) if (i.op == I_ICMP || i.op == I_AND || i.op == I_SUB || i.op == I_ADD || i.op == I_UREM || i.op == I_UDIV || i.op == I_LSHR || i.op == I_SHL || i.op == I_SELECT || i.op == I_SWITCH || i.op == I_CALL || i.op == I_MUL || i.op == I_PHI) {
    for (int a : i.a) if (a < 0 && m.k[~a].k == KVal::INT && m.k[~a].bits <= 64 && m.k[~a].undef.empty() && m.k[~a].bits >= 16) { u64 c = m.k[~a].v[0]; if (m.k[~a].bits < 64 && m.k[~a].bits >= 32) { u64 neg = (~c + 1) & ((1ull << m.k[~a].bits) - 1); if (neg < c) c = neg; } else if (m.k[~a].bits == 64 && (i64)c < 0) c = -c; if (c >= 16 && c <= (1u << 20)) { s.insert(c); if (i.op == I_LSHR || i.op == I_SHL) s.insert(1ull << std::min<u64>(c, 20)); } }
    for (u64 c : i.op == I_SWITCH ? i.imm : std::vector<u64>()) if (c >= 16 && c <= (1u << 20)) s.insert(c); }
  return std::vector<u64>(s.begin(), s.end());
}
