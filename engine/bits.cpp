#include "bits.h"
#include <algorithm>
#include <cstring>
#include <cstdio>

u64 hash64(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
static inline u64 mix2(u64 a, u64 b) { return hash64(a * 0x9E3779B97F4A7C15ull + b + 0x1234567); }

// ---------------------------------------------------------------- length sets
std::vector<u64> LPTS;
typedef std::array<u64, 4> LB;
struct LBHash { size_t operator()(const LB &a) const { return mix2(mix2(a[0], a[1]), mix2(a[2], a[3])); } };
static std::vector<LB> LS; static std::unordered_map<LB, u32, LBHash> LID; static LB LFULL;
struct C2 { u64 k; u32 v; };
static std::vector<C2> lcache;
static u32 lIntern(const LB &b) { auto it = LID.find(b); if (it != LID.end()) return it->second; u32 i = LS.size(); LS.push_back(b); LID[b] = i; return i; }
void lInit(const std::vector<u64> &pts) {
  if (pts.size() > 256) throw std::runtime_error("length domain");
  LPTS = pts; LS.clear(); LID.clear(); LFULL = {0, 0, 0, 0}; for (u32 i = 0; i < pts.size(); i++) LFULL[i / 64] |= 1ull << (i % 64);
  lIntern({0, 0, 0, 0}); lIntern(LFULL); lcache.assign(1 << 16, {~0ull, 0});
}
static LSet lop(u32 op, LSet a, LSet b) {
  u64 k = (u64)op << 60 | (u64)a << 30 | b; auto &e = lcache[hash64(k) & 0xffff]; if (e.k == k) return e.v;
  LB r; for (int i = 0; i < 4; i++) r[i] = op == 0 ? LS[a][i] & LS[b][i] : op == 1 ? LS[a][i] | LS[b][i] : LS[a][i] ^ LS[b][i];
  u32 v = lIntern(r); e = {k, v}; return v;
}
LSet lAnd(LSet a, LSet b) { if (a == b || b == 1) return a; if (a == 1) return b; if (!a || !b) return 0; return lop(0, a, b); }
LSet lOr(LSet a, LSet b) { if (a == b || b == 0) return a; if (a == 0) return b; if (a == 1 || b == 1) return 1; return lop(1, a, b); }
LSet lXor(LSet a, LSet b) { if (a == b) return 0; if (!a) return b; if (!b) return a; return lop(2, a, b); }
LSet lNot(LSet a) { return lXor(a, 1); }
LSet lWhere(const std::function<bool(u64)> &f) { LB r{0, 0, 0, 0}; for (u32 i = 0; i < LPTS.size(); i++) if (f(LPTS[i])) r[i / 64] |= 1ull << (i % 64); return lIntern(r); }
bool lHas(LSet a, u32 pt) { return LS[a][pt / 64] >> (pt % 64) & 1; }
u32 lCount(LSet a) { u32 n = 0; for (u32 i = 0; i < 4; i++) n += __builtin_popcountll(LS[a][i]); return n; }
i64 lFirst(LSet a) { for (u32 i = 0; i < LPTS.size(); i++) if (lHas(a, i)) return i; return -1; }
std::string lText(LSet a) {
  if (a == 1) return "any length"; if (!a) return "no length";
  std::string s; u32 i = 0, n = 0;
  while (i < LPTS.size()) {
    if (!lHas(a, i)) { i++; continue; }
    u32 j = i; while (j + 1 < LPTS.size() && lHas(a, j + 1)) j++;
    if (n++ == 5) { s += ",..."; break; }
    if (!s.empty()) s += ","; s += std::to_string(LPTS[i]); if (j > i) s += ".." + std::to_string(LPTS[j]); i = j + 1;
  }
  return "length " + s;
}

// ---------------------------------------------------------------- monomials
static std::vector<u32> MA; struct MR { u64 st; u32 n; };
static std::vector<MR> M; static std::vector<u32> MT; static u64 mMask;
static u64 mHash(const u32 *a, u32 n) { u64 h = n; for (u32 i = 0; i < n; i++) h = mix2(h, a[i]); return h; }
static u32 mIntern(const u32 *a, u32 n) {
  if ((M.size() + 1) * 2 > MT.size()) {
    MT.assign(std::max<size_t>(1 << 16, MT.size() * 2), 0); mMask = MT.size() - 1;
    for (u32 i = 0; i < M.size(); i++) { u64 h = mHash(&MA[M[i].st], M[i].n) & mMask; while (MT[h]) h = (h + 1) & mMask; MT[h] = i + 1; }
  }
  u64 h = mHash(a, n) & mMask;
  while (MT[h]) { auto &r = M[MT[h] - 1]; if (r.n == n && !memcmp(&MA[r.st], a, n * 4)) return MT[h] - 1; h = (h + 1) & mMask; }
  std::vector<u32> tmp(a, a + n); u64 st = MA.size(); MA.insert(MA.end(), tmp.begin(), tmp.end()); if (MA.size() == st) MA.push_back(0);
  M.push_back({st, n}); MT[h] = M.size(); return M.size() - 1;
}
static std::vector<C2> mcache;
static u32 mMul(u32 a, u32 b) {
  if (a == b || !b) return a; if (!a) return b; if (a > b) std::swap(a, b);
  u64 k = (u64)a << 32 | b; auto &e = mcache[hash64(k) & (mcache.size() - 1)]; if (e.k == k) return e.v;
  u32 tmp[256]; std::vector<u32> big; u32 n = 0; u32 na = M[a].n, nb = M[b].n; u32 *o = tmp; if (na + nb > 256) { big.resize(na + nb); o = big.data(); }
  const u32 *x = &MA[M[a].st], *y = &MA[M[b].st]; u32 i = 0, j = 0;
  while (i < na && j < nb) { if (x[i] == y[j]) { o[n++] = x[i]; i++; j++; } else if (x[i] < y[j]) o[n++] = x[i++]; else o[n++] = y[j++]; }
  while (i < na) o[n++] = x[i++]; while (j < nb) o[n++] = y[j++];
  u32 v = mIntern(o, n); mcache[hash64(k) & (mcache.size() - 1)] = {k, v}; return v;
}

// ---------------------------------------------------------------- polynomials over the atoms
std::vector<Atom> ATOMS; std::vector<TT> TTS; u32 FOLD_EPOCH;
struct QRec { u64 st; u32 n, fold, ep, name; };
static std::vector<QRec> Q; static std::vector<u32> TERMS;    // terms: monomials, ascending
static std::vector<u32> QT; static u64 qMask; static std::vector<C2> xcache, acache;
static std::unordered_map<u64, std::vector<u32>> lutAtoms, ttIds; static std::unordered_map<u64, u32> andAtoms; static std::unordered_map<u32, u32> abbrAtoms;
static const u32 NONE = 0xffffffffu; static const Qid UND = 2;
bool TRACE = false; std::unordered_map<u32, u32> FOLD_HITS; bool EXPAND = false; u64 N_EXPAND, N_EXPAND_HIT;
u64 N_TERMWORK; static u32 CAPX, CAPA;                        // sizes from which on a sum, a product gets a name of its own
// Work beyond what code that follows the specification needs: values that never meet the specification's names keep
// growing. Give names earlier then. Equalities may be missed that way (undecided, never an alarm); samples stay exact.
static u64 workStart, workBudget = ~0ull; static u32 capStage; u64 N_CAPSTAGE;
void bitsBudget(u64 b) { workStart = N_TERMWORK; workBudget = b; }
static void lowerCaps() { capStage++; N_CAPSTAGE = capStage; if (capStage == 1) { CAPX = 96; CAPA = 1500; } else { CAPX = 24; CAPA = 200; workBudget = ~0ull; } workStart = N_TERMWORK; }
static inline void addWork(u64 n) { N_TERMWORK += n; if (N_TERMWORK - workStart > workBudget) lowerCaps(); }
static inline bool isAtom(Qid p) { return Q[p].n == 1 && M[TERMS[Q[p].st]].n == 1; }

static Qid qIntern(const u32 *t, u32 n) {
  if ((Q.size() + 1) * 2 > QT.size()) {
    QT.assign(std::max<size_t>(1 << 18, QT.size() * 2), 0); qMask = QT.size() - 1;
    for (u32 i = 0; i < Q.size(); i++) if (i != UND) { u64 h = mHash(&TERMS[Q[i].st], Q[i].n) & qMask; while (QT[h]) h = (h + 1) & qMask; QT[h] = i + 1; }
  }
  u64 h = mHash(t, n) & qMask;
  while (QT[h]) { auto &r = Q[QT[h] - 1]; if (r.n == n && !memcmp(&TERMS[r.st], t, n * 4)) return QT[h] - 1; h = (h + 1) & qMask; }
  QRec r; r.st = TERMS.size(); r.n = n; r.fold = 0; r.ep = 0; r.name = NONE; TERMS.insert(TERMS.end(), t, t + n); if (!n) TERMS.push_back(0);
  if (TERMS.size() > 600000000ull && CAPX > 96) lowerCaps();
  if (TERMS.size() > 900000000ull || Q.size() > 120000000u) throw Unsupported("value representation grew too large");
  Q.push_back(r); QT[h] = Q.size(); return Q.size() - 1;
}
static u32 newAtom(Atom a) { ATOMS.push_back(std::move(a)); return ATOMS.size() - 1; }
static Qid qAtom(u32 a) { u32 m = mIntern(&a, 1); return qIntern(&m, 1); }
static Qid qResolve(Qid p); static Qid qXorRaw(Qid a, Qid b); static Qid qAndRaw(Qid a, Qid b);
static Qid abbr(Qid c) { auto it = abbrAtoms.find(c); u32 a; if (it == abbrAtoms.end()) { Atom x; x.k = A_ABBR; x.d0 = c; a = newAtom(x); abbrAtoms[c] = a; } else a = it->second; return qAtom(a); }
static Qid qXorRaw(Qid a, Qid b) {
  if (a == UND || b == UND) return UND; if (!a) return b; if (!b) return a; if (a == b) return 0; if (a > b) std::swap(a, b);
  u64 k = (u64)a << 32 | b, h = hash64(k) & (xcache.size() - 1); if (xcache[h].k == k) return xcache[h].v;
  u32 na = Q[a].n, nb = Q[b].n; std::vector<u32> o; o.reserve(na + nb); const u32 *x = &TERMS[Q[a].st], *y = &TERMS[Q[b].st]; u32 i = 0, j = 0;
  while (i < na && j < nb) { if (x[i] == y[j]) { i++; j++; } else if (x[i] < y[j]) o.push_back(x[i++]); else o.push_back(y[j++]); }
  while (i < na) o.push_back(x[i++]); while (j < nb) o.push_back(y[j++]);
  addWork(na + nb);
  Qid r = qIntern(o.data(), o.size()); if (o.size() > CAPX) { Qid f = qResolve(r); r = f != r ? f : abbr(r); }
  xcache[h] = {k, r}; return r;
}
static Qid qAndRaw(Qid a, Qid b) {
  if (!a || !b) return 0; if (a == 1) return b; if (b == 1) return a; if (a == UND || b == UND) return UND; if (a == b) return a; if (a > b) std::swap(a, b);
  u64 k = (u64)a << 32 | b, h = hash64(k) & (acache.size() - 1); if (acache[h].k == k) return acache[h].v;
  u32 na = Q[a].n, nb = Q[b].n; Qid r;
  if ((u64)na * nb > CAPA) {
    auto it = andAtoms.find(k); u32 at; if (it == andAtoms.end()) { Atom x; x.k = A_AND; x.d0 = a; x.d1 = b; at = newAtom(x); andAtoms[k] = at; } else at = it->second;
    r = qAtom(at);
  } else {
    std::vector<u32> o; o.reserve((u64)na * nb); addWork((u64)na * nb * 4);
    for (u32 i = 0; i < na; i++) for (u32 j = 0; j < nb; j++) o.push_back(mMul(TERMS[Q[a].st + i], TERMS[Q[b].st + j]));
    std::sort(o.begin(), o.end()); size_t w = 0; for (size_t i = 0; i < o.size();) { size_t j = i; while (j < o.size() && o[j] == o[i]) j++; if ((j - i) & 1) o[w++] = o[i]; i = j; }
    r = qIntern(o.data(), w); if (w > CAPX) { Qid f = qResolve(r); r = f != r ? f : abbr(r); }
  }
  acache[h] = {k, r}; return r;
}
// A value may be computed from another named value of the same step: replace the newest names by their definitions,
// one after the other, and see whether the result is a named value.
static Qid expandFold(Qid p) {
  N_EXPAND++; Qid q = p;
  for (u32 d = 0; d < 4; d++) {
    u32 top = 0; bool any = false; for (u32 i = 0; i < Q[q].n; i++) { auto &m = M[TERMS[Q[q].st + i]]; for (u32 k = 0; k < m.n; k++) { u32 a = MA[m.st + k]; if (ATOMS[a].k == A_FOLD && (!any || a > top)) { top = a; any = true; } } }
    if (!any) return NONE; Qid def = ATOMS[top].d0; if (Q[def].n > 64) return NONE;
    std::vector<u32> r0, r1;
    for (u32 i = 0; i < Q[q].n; i++) {
      u32 t = TERMS[Q[q].st + i]; u32 tmp[64], n = 0; bool has = false; if (M[t].n > 60) return NONE;
      for (u32 k = 0; k < M[t].n; k++) { u32 a = MA[M[t].st + k]; if (a == top) has = true; else tmp[n++] = a; }
      if (has) r1.push_back(mIntern(tmp, n)); else r0.push_back(t);
    }
    std::sort(r1.begin(), r1.end()); Qid p0 = qIntern(r0.data(), r0.size()), p1 = qIntern(r1.data(), r1.size());
    if ((u64)Q[def].n * Q[p1].n > 1500) return NONE;
    q = qXorRaw(p0, qAndRaw(def, p1)); if (Q[q].n > 600) return NONE;
    if (Q[q].name != NONE) { N_EXPAND_HIT++; return Q[q].name; }
    if (q < 3 || isAtom(q)) return q;
  }
  return NONE;
}
static Qid qResolve(Qid p) {
  if (p < 3) return p; { auto &r = Q[p]; if (r.ep == FOLD_EPOCH) return r.fold; }
  Qid res = p;
  if (!isAtom(p)) { if (Q[p].name != NONE) { res = Q[p].name; if (TRACE) FOLD_HITS[res]++; } else if (EXPAND && Q[p].n <= 160) { Qid x = expandFold(p); if (x != NONE) { res = x; if (TRACE) FOLD_HITS[res]++; } } }
  Q[p].fold = res; Q[p].ep = FOLD_EPOCH; return res;
}
static inline Qid qXor(Qid a, Qid b) { return qResolve(qXorRaw(a, b)); }
static inline Qid qAnd(Qid a, Qid b) { return qResolve(qAndRaw(a, b)); }
static Qid qMux(Qid c, Qid a, Qid b) { if (c == 1 || a == b) return a; if (c == 0) return b; if (c == UND || a == UND || b == UND) return UND; return qXor(b, qAnd(c, qXor(a, b))); }
static Qid qName(Qid p, const std::string &what) {
  if (p < 3 || isAtom(p)) return p; if (Q[p].n == 2 && !M[TERMS[Q[p].st]].n && M[TERMS[Q[p].st + 1]].n == 1) return p;
  if (Q[p].name != NONE) return Q[p].name;
  Atom a; a.k = A_FOLD; a.d0 = p; a.name = what; Qid at = qAtom(newAtom(a)), nat = qXorRaw(at, 1), inv = qXorRaw(p, 1); FOLD_EPOCH++; Q[p].name = at; if (inv != p && !isAtom(inv)) Q[inv].name = nat; return at;
}

// ---------------------------------------------------------------- values: one polynomial for each class of lengths
struct PC { LSet s; Qid q; };
struct WRec { u64 st; u32 n; LSet G; bool lonly; };
static std::vector<WRec> W; static std::vector<PC> WA; static std::vector<u32> WT; static u64 wMask;
static const u32 PWB = 0x80000000u; struct WC { u64 k; u32 ep, v; }; static std::vector<WC> wx, wa;
Poly GARB = UND;
static std::vector<LSet> pwR; static std::unordered_map<Poly, Qid> pwName;   // names for values that differ between classes of lengths
static Poly pwFold(Poly p);
static inline bool uni(Poly p) { return p < PWB; }
static inline u32 wn(Poly p) { return uni(p) ? 1 : W[p - PWB].n; }
static inline PC wat(Poly p, u32 i) { return uni(p) ? PC{1, p} : WA[W[p - PWB].st + i]; }
static u64 wHash(const PC *a, u32 n) { u64 h = n; for (u32 i = 0; i < n; i++) h = mix2(h, (u64)a[i].s << 32 | a[i].q); return h; }
// canonical form: classes with the same polynomial are joined, ordered by polynomial
static Poly wMake(std::vector<PC> &v) {
  std::sort(v.begin(), v.end(), [](const PC &a, const PC &b) { return a.q < b.q; }); size_t w = 0;
  for (size_t i = 0; i < v.size();) { PC x = v[i]; size_t j = i + 1; while (j < v.size() && v[j].q == x.q) x.s = lOr(x.s, v[j++].s); v[w++] = x; i = j; }
  if (w == 1) return v[0].q; v.resize(w);
  if ((W.size() + 1) * 2 > WT.size()) { WT.assign(std::max<size_t>(1 << 16, WT.size() * 2), 0); wMask = WT.size() - 1; for (u32 i = 0; i < W.size(); i++) { u64 h = wHash(&WA[W[i].st], W[i].n) & wMask; while (WT[h]) h = (h + 1) & wMask; WT[h] = i + 1; } }
  u64 h = wHash(v.data(), w) & wMask;
  while (WT[h]) { auto &r = W[WT[h] - 1]; if (r.n == w && std::equal(v.begin(), v.end(), WA.begin() + r.st, [](const PC &a, const PC &b) { return a.q == b.q && a.s == b.s; })) return PWB + WT[h] - 1; h = (h + 1) & wMask; }
  WRec r; r.st = WA.size(); r.n = w; r.G = 0; r.lonly = true; for (auto &x : v) { WA.push_back(x); if (x.q == UND) r.G = x.s; else if (x.q > 1) r.lonly = false; }
  if (W.size() > 60000000u) throw Unsupported("value representation grew too large");
  W.push_back(r); WT[h] = W.size(); return PWB + W.size() - 1;
}
template <class F> static Poly w2(Poly a, Poly b, F f) {
  std::vector<PC> o; u32 na = wn(a), nb = wn(b);
  for (u32 i = 0; i < na; i++) { PC x = wat(a, i); for (u32 j = 0; j < nb; j++) { PC y = wat(b, j); LSet s = lAnd(x.s, y.s); if (s) { Qid q = f(x.q, y.q); o.push_back({s, q}); } } }
  return wMake(o);
}
u64 termCount() { return TERMS.size(); }
u32 pCount() { return Q.size() + W.size(); }
LSet pG(Poly p) { return uni(p) ? (p == UND ? 1u : 0u) : W[p - PWB].G; }
bool pLonly(Poly p) { return uni(p) ? p <= UND : W[p - PWB].lonly; }
LSet pLset(Poly p) { if (!pLonly(p)) throw Unsupported("length-only value expected"); LSet s = 0; for (u32 i = 0; i < wn(p); i++) if (wat(p, i).q == 1) s = lOr(s, wat(p, i).s); return s; }
LSet pMay1(Poly p) { LSet s = 0; for (u32 i = 0; i < wn(p); i++) if (wat(p, i).q) s = lOr(s, wat(p, i).s); return s; }
Poly pWithG(Poly p, LSet G) { if (!G) return p; std::vector<PC> o; for (u32 i = 0; i < wn(p); i++) { PC x = wat(p, i); LSet s = lAnd(x.s, lNot(G)); if (s) o.push_back({s, x.q}); } o.push_back({G, UND}); return wMake(o); }
Poly pRestrict(Poly p, LSet R) { return pWithG(p, lNot(R)); }
Poly pDefined(Poly p) { if (!pG(p)) return p; std::vector<PC> o; Qid d = 0; for (u32 i = 0; i < wn(p); i++) if (wat(p, i).q != UND) { d = wat(p, i).q; break; } for (u32 i = 0; i < wn(p); i++) { PC x = wat(p, i); if (x.q == UND) x.q = d; o.push_back(x); } return wMake(o); }
void bitsReset() {
  M.clear(); MA.clear(); MT.clear(); mIntern(nullptr, 0); mcache.assign(1 << 18, {~0ull, 0});
  Q.clear(); TERMS.clear(); QT.clear(); ATOMS.clear(); TTS.clear(); lutAtoms.clear(); ttIds.clear(); andAtoms.clear(); abbrAtoms.clear(); FOLD_EPOCH = 1; CAPX = 4096; CAPA = 40000; capStage = 0; N_CAPSTAGE = 0; workBudget = ~0ull; workStart = N_TERMWORK;
  xcache.assign(1 << 20, {~0ull, 0}); acache.assign(1 << 20, {~0ull, 0}); W.clear(); WA.clear(); WT.clear(); pwR.clear(); pwName.clear(); wx.assign(1 << 18, {~0ull, 0, 0}); wa.assign(1 << 18, {~0ull, 0, 0});
  u32 m0 = 0; qIntern(nullptr, 0); qIntern(&m0, 1); { QRec r; r.st = TERMS.size(); r.n = 0; r.fold = UND; r.ep = 0; r.name = NONE; TERMS.push_back(0); Q.push_back(r); }
  nodesReset(); EXPAND = false; N_EXPAND = N_EXPAND_HIT = 0; FOLD_HITS.clear();
}
Poly pAtom(u32 a) { return qAtom(a); }
Poly pBase(const std::string &name) { Atom a; a.k = A_BASE; a.name = name; return qAtom(newAtom(a)); }
Poly pLen(LSet s) { if (!s) return 0; if (s == 1) return 1; std::vector<PC> o{{s, 1}, {lNot(s), 0}}; return wMake(o); }
Poly pResolve(Poly p) { if (uni(p)) return qResolve(p); std::vector<PC> o; for (u32 i = 0; i < wn(p); i++) { PC x = wat(p, i); x.q = qResolve(x.q); o.push_back(x); } return pwFold(wMake(o)); }
Poly pXor(Poly a, Poly b) {
  if (uni(a) && uni(b)) return qXor(a, b); if (!a) return b; if (!b) return a; if (a > b) std::swap(a, b);
  u64 k = (u64)a << 32 | b; auto &e = wx[hash64(k) & (wx.size() - 1)]; if (e.k == k && e.ep == FOLD_EPOCH) return e.v;
  Poly r = w2(a, b, qXor); e = {k, FOLD_EPOCH, r}; return r;
}
Poly pAnd(Poly a, Poly b) {
  if (uni(a) && uni(b)) return qAnd(a, b); if (!a || !b) return 0; if (a == 1) return b; if (b == 1) return a; if (a > b) std::swap(a, b);
  u64 k = (u64)a << 32 | b; auto &e = wa[hash64(k) & (wa.size() - 1)]; if (e.k == k && e.ep == FOLD_EPOCH) return e.v;
  Poly r = w2(a, b, qAnd); e = {k, FOLD_EPOCH, r}; return r;
}
Poly pMux(Poly c, Poly a, Poly b) {
  if (c == 1) return a; if (c == 0) return b; if (a == b) return a; if (uni(a) && uni(b) && uni(c)) return qMux(c, a, b);
  std::vector<PC> o; u32 na = wn(a), nb = wn(b), nc = wn(c);
  for (u32 k = 0; k < nc; k++) { PC z = wat(c, k); for (u32 i = 0; i < na; i++) { PC x = wat(a, i); LSet s = lAnd(z.s, x.s); if (!s) continue; if (z.q == 1) { o.push_back({s, x.q}); continue; } for (u32 j = 0; j < nb; j++) { PC y = wat(b, j); LSet t = lAnd(s, y.s); if (!t) continue; Qid q = qMux(z.q, x.q, y.q); o.push_back({t, q}); } } }
  return pwFold(wMake(o));
}
static Poly pwFold(Poly p) {
  if (uni(p) || W[p - PWB].lonly || pwR.empty()) return p; u32 d = 0; for (u32 i = 0; i < wn(p); i++) if (wat(p, i).q != UND) d++; if (d < 2) return p;
  for (LSet R : pwR) {
    if (lAnd(R, pG(p))) continue; Poly q = pRestrict(p, R); auto it = pwName.find(q); if (it == pwName.end()) continue;
    std::vector<PC> o{{R, it->second}}; for (u32 i = 0; i < wn(p); i++) { PC x = wat(p, i); x.s = lAnd(x.s, lNot(R)); if (x.s) o.push_back(x); } return wMake(o);
  }
  return p;
}
Poly pName(Poly def, LSet R, const std::string &what) {
  if (!uni(def)) {
    Poly q = pRestrict(def, R); u32 d = 0; for (u32 i = 0; i < wn(q); i++) if (wat(q, i).q != UND) d++;
    if (d > 1 && !pLonly(q)) {
      if (!pwName.count(q)) { Atom x; x.k = A_PW; x.d0 = q; x.name = what; Qid at = qAtom(newAtom(x)); pwName[q] = at; Poly inv = pXor(q, 1); pwName[inv] = qXorRaw(at, 1); if (std::find(pwR.begin(), pwR.end(), R) == pwR.end()) pwR.push_back(R); FOLD_EPOCH++; }
      return pwFold(def);
    }
  }
  std::vector<PC> o; u32 k = 0; for (u32 i = 0; i < wn(def); i++) { PC x = wat(def, i); if (lAnd(x.s, R)) { x.q = qName(x.q, k ? what + "'" + std::to_string(k) : what); k++; } o.push_back(x); }
  return wMake(o);
}

// ---------------------------------------------------------------- tables
static bool ttGet(const std::vector<u64> &t, u32 i) { return t[i / 64] >> (i % 64) & 1; }
static u32 ttIntern(u32 n, const std::vector<u64> &b) {
  u64 h = n; for (u64 x : b) h = mix2(h, x);
  for (u32 i : ttIds[h]) if (TTS[i].n == n && TTS[i].b == b) return i;
  TTS.push_back({n, b}); ttIds[h].push_back(TTS.size() - 1); return TTS.size() - 1;
}
static Qid qLut(const std::vector<Qid> &vars0, const std::vector<u64> &tt0) {
  // strip constants and constant terms, merge equal variables
  std::vector<Qid> v; u32 n0 = vars0.size(); std::vector<int> map(n0); std::vector<u8> flip(n0);   // map: -1 constant 0 (flip), else variable
  for (u32 i = 0; i < n0; i++) {
    Qid p = vars0[i]; flip[i] = 0; if (p < 2) { map[i] = -1; flip[i] = p; continue; }
    if (p == UND) { v.push_back(UND); map[i] = v.size() - 1; continue; }
    if (!TERMS[Q[p].st]) { p = qXorRaw(p, 1); flip[i] = 1; }
    int at = -1; for (u32 k = 0; k < v.size(); k++) if (v[k] == p) at = k;
    if (at < 0) { v.push_back(p); at = v.size() - 1; } map[i] = at;
  }
  // canonical variable order
  std::vector<u32> ord(v.size()); for (u32 i = 0; i < ord.size(); i++) ord[i] = i; std::stable_sort(ord.begin(), ord.end(), [&](u32 a, u32 b) { return v[a] < v[b]; });
  std::vector<u32> inv(v.size()); for (u32 i = 0; i < ord.size(); i++) inv[ord[i]] = i;
  { std::vector<Qid> w; for (u32 i : ord) w.push_back(v[i]); v = w; }
  u32 n = v.size(); if (n > 16) throw Unsupported("table index with too many variable bits");
  std::vector<u8> t(1u << n);
  for (u32 x = 0; x < (1u << n); x++) { u32 idx = 0; for (u32 i = 0; i < n0; i++) { u32 b = map[i] < 0 ? 0 : x >> inv[map[i]] & 1; idx |= (b ^ flip[i]) << i; } t[x] = ttGet(tt0, idx); }
  // drop variables without influence
  for (u32 i = 0; i < n;) {
    bool dep = false; for (u32 x = 0; x < (1u << n) && !dep; x++) if (!(x >> i & 1) && t[x] != t[x | 1u << i]) dep = true;
    if (dep) { i++; continue; }
    std::vector<u8> u(1u << (n - 1)); for (u32 x = 0; x < (1u << n); x++) if (!(x >> i & 1)) u[(x & ((1u << i) - 1)) | (x >> (i + 1) << i)] = t[x];
    t = u; v.erase(v.begin() + i); n--;
  }
  for (Qid x : v) if (x == UND) return UND;
  if (n == 0) return t[0];
  // algebraic normal form
  std::vector<u8> anf = t; for (u32 i = 0; i < n; i++) for (u32 x = 0; x < (1u << n); x++) if (x >> i & 1) anf[x] ^= anf[x ^ (1u << i)];
  double est = 0; bool linear = true, single = true;
  for (Qid x : v) if (!isAtom(x)) single = false;
  for (u32 x = 0; x < (1u << n); x++) if (anf[x]) { double s = 1; for (u32 i = 0; i < n; i++) if (x >> i & 1) s *= Q[v[i]].n; est += s; if (x & (x - 1)) linear = false; }
  if (linear || (single && n <= 10) || est <= 256) {
    if (single) {
      std::vector<u32> at(n); for (u32 i = 0; i < n; i++) at[i] = MA[M[TERMS[Q[v[i]].st]].st]; std::vector<u32> o;
      for (u32 x = 0; x < (1u << n); x++) if (anf[x]) { u32 a[16], k = 0; for (u32 i = 0; i < n; i++) if (x >> i & 1) a[k++] = at[i]; std::sort(a, a + k); o.push_back(mIntern(a, k)); }
      std::sort(o.begin(), o.end()); return qResolve(qIntern(o.data(), o.size()));
    }
    Qid r = 0; for (u32 x = 0; x < (1u << n); x++) if (anf[x]) { Qid s = 1; for (u32 i = 0; i < n; i++) if (x >> i & 1) s = qAnd(s, v[i]); r = qXor(r, s); }
    return qResolve(r);
  }
  // opaque look-up value, complement-canonical
  u8 neg = t[0]; std::vector<u64> b(std::max(1u, (1u << n) / 64), 0); for (u32 x = 0; x < (1u << n); x++) if (t[x] ^ neg) b[x / 64] |= 1ull << (x % 64);
  u32 ti = ttIntern(n, b); u64 h = ti; for (Qid x : v) h = mix2(h, x);
  u32 at = ~0u; for (u32 a : lutAtoms[h]) if (ATOMS[a].tt == ti && ATOMS[a].vars == v) at = a;
  if (at == ~0u) { Atom x; x.k = A_LUT; x.tt = ti; x.vars = v; at = newAtom(x); lutAtoms[h].push_back(at); }
  Qid r = qAtom(at); return neg ? qXor(r, 1) : r;
}
Poly pLut(const std::vector<Poly> &vars, const std::vector<u64> &tt) {
  bool u = true; for (Poly p : vars) if (!uni(p)) u = false; if (u) return qLut(vars, tt);
  std::vector<LSet> cls{1}; for (Poly p : vars) if (!uni(p)) { std::vector<LSet> nc; for (LSet k : cls) for (u32 i = 0; i < wn(p); i++) { LSet s = lAnd(k, wat(p, i).s); if (s) nc.push_back(s); } cls = nc; }
  std::vector<PC> o; for (LSet k : cls) { std::vector<Qid> vs; for (Poly p : vars) { if (uni(p)) vs.push_back(p); else for (u32 i = 0; i < wn(p); i++) if (lAnd(k, wat(p, i).s)) { vs.push_back(wat(p, i).q); break; } } Qid q = qLut(vs, tt); o.push_back({k, q}); }
  return wMake(o);
}
static std::string qText(Qid p, u32 mx) {
  if (p == UND) return "undefined"; std::string s; if (!Q[p].n) return "0";
  for (u32 i = 0; i < Q[p].n; i++) {
    if (i == mx) { s += " ^ ...(" + std::to_string(Q[p].n) + " terms)"; break; }
    auto &m = M[TERMS[Q[p].st + i]]; if (i) s += " ^ "; if (!m.n) s += "1"; for (u32 k = 0; k < m.n; k++) { u32 a = MA[m.st + k]; if (k) s += "*"; s += ATOMS[a].name.empty() ? "v" + std::to_string(a) : ATOMS[a].name; }
  }
  return s;
}
std::string pText(Poly p, u32 mx) { if (uni(p)) return qText(p, mx); std::string s; for (u32 i = 0; i < wn(p); i++) s += (i ? "; " : "") + ("[" + lText(wat(p, i).s) + "] ") + qText(wat(p, i).q, mx); return s; }
void traceLike(const char *name, u32) {
  for (u32 a = 0; a < ATOMS.size(); a++) if (ATOMS[a].name == name) { Eval e(0, 77), f(0, 78); u64 x = e.poly(pAtom(a)), y = f.poly(pAtom(a)); u32 cnt = 0; u32 np = Q.size();
    for (u32 p = 3; p < np && cnt < 25; p++) { u64 z = e.poly(p); if ((z == x && f.poly(p) == y) || (z == ~x && f.poly(p) == ~y)) { cnt++; fprintf(stderr, "like %s: #%u n %u fold %u ep %u name %d : %s\n", name, p, Q[p].n, Q[p].fold, Q[p].ep, (int)Q[p].name, pText(p, 12).c_str()); } } }
}
void traceMisses(u32 from, u32 to) {
  u32 cnt = 0, miss = 0, all = 0;
  for (u32 a = from; a < to; a++) if (ATOMS[a].k == A_FOLD) { all++; Poly p = pAtom(a); if (!FOLD_HITS.count(p) && !FOLD_HITS.count(qXorRaw(p, 1))) { miss++; if (cnt++ < 40) fprintf(stderr, "miss %s = %s\n", ATOMS[a].name.c_str(), pText(ATOMS[a].d0, 10).c_str()); } }
  fprintf(stderr, "%u of %u names missed\n", miss, all);
}

// ---------------------------------------------------------------- evaluation
u64 Eval::base(const std::string &name) {
  auto it = fixed.find(name); if (it != fixed.end()) return it->second;
  u64 h = seed; if (name.compare(0, 3, "key") == 0) h = 0x5eed; if (salt && (name.compare(0, 3, "old") == 0 || name.compare(0, 5, "later") == 0)) h ^= salt; for (char c : name) h = mix2(h, (u8)c);
  return h;
}
u64 Eval::atom(u32 a) {
  if (val.size() < ATOMS.size()) { val.resize(ATOMS.size()); have.resize(ATOMS.size()); }
  if (have[a]) return val[a];
  // definitions only use earlier atoms: evaluate in order what is needed
  std::vector<u32> st{a};
  while (!st.empty()) {
    u32 x = st.back(); if (have[x]) { st.pop_back(); continue; }
    Atom &A = ATOMS[x]; std::vector<Qid> deps; if (A.k == A_LUT) deps = A.vars; else if (A.k == A_AND) deps = {A.d0, A.d1}; else if (A.k == A_PW) { deps = {A.d0}; for (u32 i = 0; i < wn(A.d0); i++) if (lHas(wat(A.d0, i).s, pt)) deps[0] = wat(A.d0, i).q; } else if (A.k != A_BASE) deps = {A.d0};
    bool ready = true;
    for (Qid d : deps) for (u32 i = 0; i < Q[d].n; i++) { auto &m = M[TERMS[Q[d].st + i]]; for (u32 k = 0; k < m.n; k++) { u32 y = MA[m.st + k]; if (!have[y]) { st.push_back(y); ready = false; } } }
    if (!ready) continue;
    u64 r = 0;
    if (A.k == A_BASE) r = base(A.name); else if (A.k == A_AND) r = qval(A.d0) & qval(A.d1);
    else if (A.k == A_LUT) { u64 pv[16]; u32 n = A.vars.size(); for (u32 i = 0; i < n; i++) pv[i] = qval(A.vars[i]); for (u32 s = 0; s < 64; s++) { u32 ix = 0; for (u32 i = 0; i < n; i++) ix |= (u32)(pv[i] >> s & 1) << i; if (ttGet(TTS[A.tt].b, ix)) r |= 1ull << s; } }
    else r = poly(A.d0);
    val[x] = r; have[x] = 1; st.pop_back();
  }
  return val[a];
}
u64 Eval::qval(Qid p) { u64 r = 0; u64 st = Q[p].st; u32 n = Q[p].n; for (u32 i = 0; i < n; i++) { u32 t = TERMS[st + i]; u64 m = ~0ull; for (u32 k = 0; k < M[t].n && m; k++) m &= atom(MA[M[t].st + k]); r ^= m; } return r; }
u64 Eval::poly(Poly p) { if (uni(p)) return qval(p); for (u32 i = 0; i < wn(p); i++) if (lHas(wat(p, i).s, pt)) return qval(wat(p, i).q); return 0; }

// ---------------------------------------------------------------- tagged bits
std::vector<Node> NODES; static std::vector<std::pair<Bit, Bit>> ring; static u32 gcount; static const u32 RING = 1 << 20; u64 N_BITOPS;
// an undefined bit that is defined under a data-dependent condition: {condition, value}
static std::unordered_map<u32, std::pair<Bit, Bit>> PEND;
static LSet gOf(Bit x) { return bPoly(x) ? pG(bId(x)) : 0; }
// condition under which x is defined, and its value there
static void dsplit(Bit x, Bit &d, Bit &v) {
  d = 1; v = x;
  if (bTag(x) == T_GT) { auto it = PEND.find(bId(x)); if (it == PEND.end()) { d = 0; v = 0; } else { d = it->second.first; v = it->second.second; } return; }
  LSet g = gOf(x); if (!g) return; if (g == 1) { d = 0; v = 0; return; }
  d = mk(bTag(x), pLen(lNot(g))); v = mk(bTag(x), pDefined(bId(x)));
}
static Bit pending(Bit d, Bit v) {
  if (d == 1) return v; if (!d) return bFresh();
  if (bPoly(d) && pLonly(bId(d)) && !pG(bId(d)) && bPoly(v) && (!bTag(v) || !bTag(d) || bTag(v) == bTag(d))) return mk(bTag(v) | bTag(d), pMux(bId(d), bId(v), GARB));
  Bit r = bFresh(); PEND[bId(r)] = {d, v}; return r;
}
Bit bUnder(Bit x, Bit mask) {
  if (PEND.empty() || bTag(x) != T_GT) return x;
  auto it = PEND.find(bId(x)); if (it == PEND.end() || bTag(mask) == T_GT) return x;
  return bAnd(mask, bNot(it->second.first)) ? x : it->second.second;
}
Bit bDefinedWhen(Bit x) { Bit d, v; dsplit(x, d, v); return d; }
Bit bIfDefined(Bit x) { Bit d, v; dsplit(x, d, v); return v; }
bool bPending() { return !PEND.empty(); }
void nodesReset() { NODES.clear(); PEND.clear(); NODES.push_back({}); NODES.push_back({}); NODES.push_back({}); ring.assign(RING, {0, 0}); gcount = 4; }
Bit bFresh() { u32 i = gcount++; if (gcount > 0xfffffff0u) throw Unsupported("too many undefined values"); ring[i & (RING - 1)] = {0, 0}; return mk(T_GT, i); }
static bool isPend(Bit x) { return bTag(x) == T_GT && PEND.count(bId(x)); }
static Bit gXor(Bit a, Bit b) { Bit r = bFresh(); ring[bId(r) & (RING - 1)] = {a, b}; return r; }
static Bit node(u8 op, Bit a, Bit b, Bit c = 0) { if (NODES.size() > 60000000) throw Unsupported("too many values mixing packets"); Node n; n.op = op; n.a = a; n.b = b; n.c = c; NODES.push_back(n); return mk(T_X, NODES.size() - 1); }
static bool parts(Bit x, Bit &p, Bit &q) {
  if (bTag(x) == T_GT) { u32 i = bId(x); if (gcount - i >= RING) return false; auto &e = ring[i & (RING - 1)]; if (!e.first && !e.second) return false; p = e.first; q = e.second; return true; }
  if (bTag(x) == T_X && NODES[bId(x)].op == '^') { p = NODES[bId(x)].a; q = NODES[bId(x)].b; return true; }
  return false;
}
Bit bXor(Bit a, Bit b) {
  if (a == b) { return 0; }
  if (!a) return b; if (!b) return a;
  u32 ta = bTag(a), tb = bTag(b);
  if (ta < T_GT && tb < T_GT && (ta == tb || !ta || !tb)) return mk(ta | tb, pXor(bId(a), bId(b)));
  if (!PEND.empty() && (isPend(a) || isPend(b))) { Bit da, va, db, vb; dsplit(a, da, va); dsplit(b, db, vb); Bit d = bAnd(da, db); return d ? pending(d, bXor(va, vb)) : bFresh(); }
  Bit p, q, r, s; bool pa = parts(a, p, q), pb = parts(b, r, s);
  if (pa) { if (p == b) return q; if (q == b) return p; }
  if (pb) { if (r == a) return s; if (s == a) return r; }
  if (pa && pb) { if (p == r) return bXor(q, s); if (p == s) return bXor(q, r); if (q == r) return bXor(p, s); if (q == s) return bXor(p, r); }
  bool g = ta == T_GT || tb == T_GT;
  if (!g) { // same-tag parts combine
    if (pa && tb < T_GT) { if (bPoly(p) && (bTag(p) == tb || !tb)) return bXor(bXor(p, b), q); if (bPoly(q) && (bTag(q) == tb || !tb)) return bXor(p, bXor(q, b)); }
    if (pb && ta < T_GT) { if (bPoly(r) && (bTag(r) == ta || !ta)) return bXor(bXor(r, a), s); if (bPoly(s) && (bTag(s) == ta || !ta)) return bXor(r, bXor(s, a)); }
  }
  return g ? gXor(a, b) : node('^', a, b);
}
Bit bAnd(Bit a, Bit b) {
  if (!a || !b) return 0; if (a == 1) return b; if (b == 1) return a; if (a == b) return a;
  u32 ta = bTag(a), tb = bTag(b);
  if (ta < T_GT && tb < T_GT && (ta == tb || !ta || !tb)) return mk(ta | tb, pAnd(bId(a), bId(b)));
  if (!PEND.empty() && (isPend(a) || isPend(b))) { Bit da, va, db, vb; dsplit(a, da, va); dsplit(b, db, vb); Bit d = bAnd(da, db); return d ? pending(d, bAnd(va, vb)) : bFresh(); }
  if (ta == T_GT && tb == T_GT) return bFresh();
  if (ta == T_GT || tb == T_GT) {
    Bit o = ta == T_GT ? b : a; if (bPoly(o)) { LSet m = pMay1(bId(o)); if (m != 1) return mk(bTag(o), pWithG(0, m)); }
    return bFresh();
  }
  Bit p, q; if (ta == T_X && !tb && parts(a, p, q)) return bXor(bAnd(p, b), bAnd(q, b)); if (tb == T_X && !ta && parts(b, p, q)) return bXor(bAnd(a, p), bAnd(a, q));
  return node('&', a, b);
}
Bit bMux(Bit c, Bit a, Bit b) {
  if (c == 1 || a == b) return a; if (!c) return b;
  u32 tc = bTag(c), ta = bTag(a), tb = bTag(b);
  if (tc == T_GT) return bFresh();
  if ((ta == T_GT || tb == T_GT || gOf(a) || gOf(b)) && !(tc < T_GT && pLonly(bId(c)) && (ta != T_GT || !PEND.count(bId(a))) && (tb != T_GT || !PEND.count(bId(b))))) {
    Bit da, va, db, vb; dsplit(a, da, va); dsplit(b, db, vb); if (!da) va = vb; if (!db) vb = va;
    return pending(bMux(c, da, db), bMux(c, va, vb));
  }
  if (tc < T_GT) {
    u32 t = tc; bool ok = true;
    for (u32 x : {ta, tb}) { if (x == T_GT || !x) continue; if (x == T_X || (t && t != x)) ok = false; else t = x; }
    if (ok) {
      return mk(t, pMux(bId(c), ta == T_GT ? GARB : bId(a), tb == T_GT ? GARB : bId(b)));
    }
  }
  return node('?', c, a, b);
}
Bit bLut(const std::vector<Bit> &idx, const std::vector<u64> &tt) {
  if (!PEND.empty()) { bool any = false; for (Bit b : idx) any |= isPend(b); if (any) { Bit D = 1; std::vector<Bit> vs; for (Bit b : idx) { Bit d, v; dsplit(b, d, v); D = bAnd(D, d); vs.push_back(v); } return D ? pending(D, bLut(vs, tt)) : bFresh(); } }
  u32 t = 0; bool ok = true, g = false; for (Bit b : idx) { u32 x = bTag(b); if (x == T_GT) g = true; else if (x == T_X || (x && t && x != t)) ok = false; else t |= x; }
  if (!ok) { Node n; n.op = 'L'; n.v = idx; n.tt = ttIntern(idx.size(), tt); n.a = n.b = n.c = 0; NODES.push_back(n); return mk(T_X, NODES.size() - 1); }
  std::vector<Poly> v; for (Bit b : idx) v.push_back(bTag(b) == T_GT ? GARB : bId(b));
  Poly r = pLut(v, tt); if (g && pG(r) == 1) return bFresh(); return mk(t, r);
}
Eval *BEval::get(u32 tag) { auto &e = ev[tag]; if (!e) e = make(tag); return e; }
BEval::~BEval() { for (auto &x : ev) delete x.second; }
u64 BEval::bit(Bit b) {
  u32 t = bTag(b);
  if (t < T_GT) {
    if (bId(b) < 2) return bId(b) ? ~0ull : 0; Eval *e = get(t);
    if (lHas(pG(bId(b)), e->pt)) { garb = true; return hash64(gseed ^ b); }
    return e->poly(bId(b));
  }
  if (t == T_GT) {
    auto it = PEND.find(bId(b)); if (it == PEND.end()) { garb = true; return hash64(gseed ^ b); }
    u64 d = bit(it->second.first), v = d ? bit(it->second.second) : 0; if (~d) { garb = true; v ^= ~d & hash64(gseed ^ b); } return v;
  }
  u32 id = bId(b);
  if (dense) { if (ds.size() < NODES.size()) { ds.resize(NODES.size()); dv.resize(NODES.size()); } if (ds[id]) { garb |= ds[id] == 2; return dv[id]; } }
  else { auto it = memo.find(id); if (it != memo.end()) { garb |= it->second.second; return it->second.first; } }
  const Node &n = NODES[id]; bool before = garb; garb = false; u64 r = 0;
  switch (n.op) {
  case '^': r = bit(n.a); r ^= bit(n.b); break;
  case '&': r = bit(n.a); if (r) r &= bit(n.b); break;
  case '?': { u64 c = bit(n.a); r = c ? c & bit(n.b) : 0; if (~c) r |= ~c & bit(n.c); break; }
  default: { std::vector<u64> v; for (Bit x : n.v) v.push_back(bit(x)); for (u32 s = 0; s < 64; s++) { u32 ix = 0; for (u32 i = 0; i < v.size(); i++) ix |= (u32)(v[i] >> s & 1) << i; if (ttGet(TTS[n.tt].b, ix)) r |= 1ull << s; } }
  }
  if (dense) { dv[id] = r; ds[id] = garb ? 2 : 1; } else memo[id] = {r, garb};
  garb |= before; return r;
}
