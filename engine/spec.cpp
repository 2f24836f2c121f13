#include "spec.h"

const u8 SpecTables::keyPerm[64] = {
  0x12,0x24,0x09,0x07,0x2A,0x31,0x1D,0x15,0x1C,0x36,0x3E,0x32,0x13,0x21,0x3B,0x40,
  0x18,0x14,0x25,0x27,0x02,0x35,0x1B,0x01,0x22,0x04,0x0D,0x0E,0x39,0x28,0x1A,0x29,
  0x33,0x23,0x34,0x0C,0x16,0x30,0x1E,0x3A,0x2D,0x1F,0x08,0x19,0x17,0x2F,0x3D,0x11,
  0x3C,0x05,0x38,0x2B,0x0B,0x06,0x0A,0x2C,0x20,0x3F,0x2E,0x0F,0x03,0x26,0x10,0x37 };
const u8 SpecTables::blockSbox[256] = {
  0x3A,0xEA,0x68,0xFE,0x33,0xE9,0x88,0x1A,0x83,0xCF,0xE1,0x7F,0xBA,0xE2,0x38,0x12,
  0xE8,0x27,0x61,0x95,0x0C,0x36,0xE5,0x70,0xA2,0x06,0x82,0x7C,0x17,0xA3,0x26,0x49,
  0xBE,0x7A,0x6D,0x47,0xC1,0x51,0x8F,0xF3,0xCC,0x5B,0x67,0xBD,0xCD,0x18,0x08,0xC9,
  0xFF,0x69,0xEF,0x03,0x4E,0x48,0x4A,0x84,0x3F,0xB4,0x10,0x04,0xDC,0xF5,0x5C,0xC6,
  0x16,0xAB,0xAC,0x4C,0xF1,0x6A,0x2F,0x3C,0x3B,0xD4,0xD5,0x94,0xD0,0xC4,0x63,0x62,
  0x71,0xA1,0xF9,0x4F,0x2E,0xAA,0xC5,0x56,0xE3,0x39,0x93,0xCE,0x65,0x64,0xE4,0x58,
  0x6C,0x19,0x42,0x79,0xDD,0xEE,0x96,0xF6,0x8A,0xEC,0x1E,0x85,0x53,0x45,0xDE,0xBB,
  0x7E,0x0A,0x9A,0x13,0x2A,0x9D,0xC2,0x5E,0x5A,0x1F,0x32,0x35,0x9C,0xA8,0x73,0x30,
  0x29,0x3D,0xE7,0x92,0x87,0x1B,0x2B,0x4B,0xA5,0x57,0x97,0x40,0x15,0xE6,0xBC,0x0E,
  0xEB,0xC3,0x34,0x2D,0xB8,0x44,0x25,0xA4,0x1C,0xC7,0x23,0xED,0x90,0x6E,0x50,0x00,
  0x99,0x9E,0x4D,0xD9,0xDA,0x8D,0x6F,0x5F,0x3E,0xD7,0x21,0x74,0x86,0xDF,0x6B,0x05,
  0x8E,0x5D,0x37,0x11,0xD2,0x28,0x75,0xD6,0xA7,0x77,0x24,0xBF,0xF0,0xB0,0x02,0xB7,
  0xF8,0xFC,0x81,0x09,0xB1,0x01,0x76,0x91,0x7D,0x0F,0xC8,0xA0,0xF2,0xCB,0x78,0x60,
  0xD1,0xF7,0xE0,0xB5,0x98,0x22,0xB3,0x20,0x1D,0xA6,0xDB,0x7B,0x59,0x9F,0xAE,0x31,
  0xFB,0xD3,0xB6,0xCA,0x43,0x72,0x07,0xF4,0xD8,0x41,0x14,0x55,0x0D,0x54,0x8B,0xB9,
  0xAD,0x46,0x0B,0xAF,0x80,0x52,0x2C,0xFA,0x8C,0x89,0x66,0xFD,0xB2,0xA9,0x9B,0xC0 };
const u8 SpecTables::streamSbox[7][32] = {
  {2,0,1,1,2,3,3,0,3,2,2,0,1,1,0,3,0,3,3,0,2,2,1,1,2,2,0,3,1,1,3,0},
  {3,1,0,2,2,3,3,0,1,3,2,1,0,0,1,2,3,1,0,3,3,2,0,2,0,0,1,2,2,1,3,1},
  {2,0,1,2,2,3,3,1,1,1,0,3,3,0,2,0,1,3,0,1,3,0,2,2,2,0,1,2,0,3,3,1},
  {3,1,2,3,0,2,1,2,1,2,0,1,3,0,0,3,1,0,3,1,2,3,0,3,0,3,2,0,1,2,2,1},
  {2,0,0,1,3,2,3,2,0,1,3,3,1,0,2,1,2,3,2,0,0,3,1,1,1,0,3,2,3,1,0,2},
  {0,1,2,3,1,2,2,0,0,1,3,0,2,3,1,3,2,3,0,2,3,0,1,1,2,1,1,2,0,3,3,0},
  {0,3,2,2,3,0,0,1,3,0,1,3,1,2,2,1,1,0,3,3,0,1,1,2,2,3,1,0,2,3,0,2} };
// inputs of the stream S-boxes, most significant index bit first: {register A cell, bit}
static const u8 sIn[7][5][2] = {
  {{4,0},{1,2},{6,1},{7,3},{9,0}}, {{2,1},{3,2},{6,3},{7,0},{9,1}}, {{1,3},{2,0},{5,1},{5,3},{6,2}}, {{3,3},{1,1},{2,3},{4,2},{8,0}},
  {{5,2},{4,3},{6,0},{8,1},{9,2}}, {{3,1},{4,1},{5,0},{7,2},{9,3}}, {{2,2},{3,0},{7,1},{8,2},{8,3}} };
// bit permutation applied to the block S-box output: output bit for input bit i
static const u8 bPerm[8] = {1, 7, 5, 4, 2, 6, 0, 3};

typedef std::array<Poly, 4> Nib;
static Byte8 bx(const Byte8 &a, const Byte8 &b) { Byte8 r; for (int i = 0; i < 8; i++) r[i] = pXor(a[i], b[i]); return r; }

void Spec::inputs(bool s, u32 n, u64 fl) {
  sym = s; nbytes = n; fixed = fl; haveKey = false; kk.clear();
  for (u32 b = 0; b < 64; b++) key[b] = pBase("key" + std::to_string(b));
  pay.resize(n); for (u32 j = 0; j < n; j++) for (u32 b = 0; b < 8; b++) { Poly a = pBase("p" + std::to_string(j) + "." + std::to_string(b)); pay[j][b] = s ? pWithG(a, lNot(longer(j))) : a; }
}
void Spec::keySchedule() {
  if (haveKey) return; haveKey = true;
  // bit numbering of the permutation: 1..64, most significant bit of the first byte first
  std::array<Poly, 64> k[7]; k[6] = key;
  for (int i = 6; i > 0; i--) for (u32 b = 0; b < 64; b++) { u32 d = SpecTables::keyPerm[b] - 1; k[i - 1][d ^ 7] = k[i][b ^ 7]; }
  kk.resize(56); for (u32 i = 0; i < 7; i++) for (u32 j = 0; j < 8; j++) for (u32 b = 0; b < 8; b++) kk[i * 8 + j][b] = pXor(k[i][j * 8 + b], i >> b & 1);
}
Byte8 Spec::sbox(const Byte8 &x) {
  static std::vector<std::vector<u64>> tt; if (tt.empty()) for (u32 b = 0; b < 8; b++) { std::vector<u64> t(4, 0); for (u32 i = 0; i < 256; i++) if (SpecTables::blockSbox[i] >> b & 1) t[i / 64] |= 1ull << (i % 64); tt.push_back(t); }
  std::vector<Poly> v(x.begin(), x.end()); Byte8 r; for (u32 b = 0; b < 8; b++) r[b] = pLut(v, tt[b]); return r;
}
static Byte8 permute(const Byte8 &s) { Byte8 r; for (u32 b = 0; b < 8; b++) r[bPerm[b]] = s[b]; return r; }
typedef std::array<Byte8, 8> Blk;
Blk Spec::blockDec(Blk w) {
  keySchedule();
  for (int i = 55; i >= 0; i--) {
    Byte8 s = sbox(bx(kk[i], w[6])), l = bx(w[7], s);
    Blk n; n[0] = l; n[1] = w[0]; n[2] = bx(w[1], l); n[3] = bx(w[2], l); n[4] = bx(w[3], l); n[5] = w[4]; n[6] = bx(w[5], permute(s)); n[7] = w[6]; w = n;
  }
  return w;
}
Blk Spec::blockEnc(Blk w, const std::function<void(u32, u32, Byte8 &)> &nm) {
  keySchedule();
  for (int i = 0; i < 56; i++) {
    Byte8 s = sbox(bx(kk[i], w[7]));
    Blk n; n[0] = w[1]; n[1] = bx(w[2], w[0]); n[2] = bx(w[3], w[0]); n[3] = bx(w[4], w[0]); n[4] = w[5]; n[5] = bx(w[6], permute(s)); n[6] = w[7]; n[7] = bx(w[0], s);
    // register values that leave the cipher are named as soon as they exist, before they are used again
    if (nm && i % 8 >= 6) for (u32 x : {1, 2, 3, 5, 7}) if (i % 8 == 7 || (x & 1 && x != 3)) nm(i, x, n[x]);
    w = n;
  }
  return w;
}
void Spec::stream(const Blk &iv, LSet R, u64 count, std::vector<Byte8> &ks) {
  Nib A[11], B[11], X{}, Y{}, Z{}, D{}, E{}, F{}; Poly p = 0, q = 0, r = 0;
  auto knib = [&](u32 byte, bool hi) { Nib n; for (u32 b = 0; b < 4; b++) n[b] = key[byte * 8 + (hi ? 4 : 0) + b]; return n; };
  for (u32 i = 0; i < 11; i++) A[i] = B[i] = Nib{};
  for (u32 i = 0; i < 4; i++) { A[1 + 2 * i] = knib(i, true); A[2 + 2 * i] = knib(i, false); B[1 + 2 * i] = knib(4 + i, true); B[2 + 2 * i] = knib(4 + i, false); }
  static std::vector<std::vector<u64>> tt; if (tt.empty()) for (u32 s = 0; s < 7; s++) for (u32 o = 0; o < 2; o++) { u64 t = 0; for (u32 i = 0; i < 32; i++) if (SpecTables::streamSbox[s][i] >> o & 1) t |= 1ull << i; tt.push_back({t}); }
  u64 step = 0; auto nm = [&](Poly d, const char *w, u32 b) { return pName(d, R, std::string(w) + std::to_string(b) + "@" + std::to_string(step)); };
  auto round = [&](bool init, const Nib &inA, const Nib &inB) {
    step++;
    Poly s[7][2];
    for (u32 k = 0; k < 7; k++) { std::vector<Poly> v; for (int i = 4; i >= 0; i--) v.push_back(A[sIn[k][i][0]][sIn[k][i][1]]); for (u32 o = 0; o < 2; o++) s[k][o] = pLut(v, tt[k * 2 + o]); }
    Nib xb{ pXor(pXor(B[9][2], B[6][3]), pXor(B[3][1], B[8][0])), pXor(pXor(B[5][3], B[8][2]), pXor(B[4][0], B[5][1])),
            pXor(pXor(B[6][0], B[8][1]), pXor(B[3][3], B[4][2])), pXor(pXor(B[3][0], B[6][1]), pXor(B[7][2], B[9][3])) };
    Nib na, nb;
    for (u32 b = 0; b < 4; b++) { na[b] = pXor(A[10][b], X[b]); nb[b] = pXor(pXor(B[7][b], B[10][b]), Y[b]); if (init) { na[b] = pXor(pXor(na[b], D[b]), inA[b]); nb[b] = pXor(nb[b], inB[b]); } }
    Nib rb; for (u32 b = 0; b < 4; b++) rb[b] = pMux(p, nb[(b + 3) & 3], nb[b]);
    for (u32 b = 0; b < 4; b++) { na[b] = nm(na[b], "A", b); rb[b] = nm(rb[b], "B", b); }
    Nib nd; for (u32 b = 0; b < 4; b++) nd[b] = pXor(pXor(E[b], Z[b]), xb[b]);
    Nib ne = F, nf; Poly c = r;
    for (u32 b = 0; b < 4; b++) { Poly t = pXor(Z[b], E[b]); Poly sum = pXor(t, c); c = pXor(pAnd(Z[b], E[b]), pAnd(t, c)); nf[b] = pMux(q, sum, E[b]); }
    Poly nr = pMux(q, c, r);
    for (u32 b = 0; b < 4; b++) nf[b] = nm(nf[b], "F", b); nr = nm(nr, "r", 0);
    Nib nx{ nm(s[0][1], "X", 0), nm(s[1][1], "X", 1), nm(s[2][0], "X", 2), nm(s[3][0], "X", 3) };
    Nib ny{ nm(s[2][1], "Y", 0), nm(s[3][1], "Y", 1), nm(s[4][0], "Y", 2), nm(s[5][0], "Y", 3) };
    Nib nz{ nm(s[4][1], "Z", 0), nm(s[5][1], "Z", 1), nm(s[0][0], "Z", 2), nm(s[1][0], "Z", 3) };
    p = nm(s[6][1], "p", 0); q = nm(s[6][0], "q", 0);
    for (u32 i = 10; i > 1; i--) { A[i] = A[i - 1]; B[i] = B[i - 1]; } A[1] = na; B[1] = rb; X = nx; Y = ny; Z = nz; D = nd; E = ne; F = nf; r = nr;
  };
  for (u32 i = 0; i < 8; i++) {
    Nib hi, lo; for (u32 b = 0; b < 4; b++) { lo[b] = iv[i][b]; hi[b] = iv[i][4 + b]; }
    for (u32 j = 0; j < 4; j++) round(true, j & 1 ? lo : hi, j & 1 ? hi : lo);
  }
  ks.resize(count);
  for (u64 i = 0; i < count; i++) for (u32 j = 0; j < 4; j++) { round(false, Nib{}, Nib{}); ks[i][7 - 2 * j] = pXor(D[2], D[3]); ks[i][6 - 2 * j] = pXor(D[0], D[1]); }
}
// The batch interface on a packet of length L with limit M: eff = min(L, M); whole blocks of eff are chained and
// enciphered, bytes from 8 on go through the stream cipher; nothing happens below 8 bytes.
void Spec::build(bool e, u64 m) {
  enc = e; M = m;
  auto ge = [&](u64 n) -> LSet { if (n > M) return 0; return sym ? lWhere([&](u64 L) { return L >= n; }) : (fixed >= n ? 1u : 0u); };
  auto sel = [&](LSet s, Poly a, Poly b) { return s == 1 ? a : s == 0 ? b : pMux(pLen(s), a, b); };
  out = pay; u64 lim = nbytes; if (M < lim) lim = M; if (!sym && fixed < lim) lim = fixed;
  if (ge(8) == 0 || nbytes < 8) return;
  u64 nblk = lim / 8; u64 nks = lim > 8 ? lim - 8 : 0; std::vector<Byte8> ks;
  auto blk = [&](const std::vector<Byte8> &v, u64 k) { Blk b; for (u32 i = 0; i < 8; i++) b[i] = v[k * 8 + i]; return b; };
  if (!enc) {
    stream(blk(pay, 0), ge(8), nks, ks);
    std::vector<Byte8> s = pay; for (u64 j = 8; j < lim; j++) s[j] = bx(pay[j], ks[j - 8]);
    for (u64 k = 0; k < nblk; k++) for (u32 i = 0; i < 8; i++) for (u32 b = 0; b < 8; b++) if (k) { Poly nmv = pName(s[k * 8 + i][b], ge(8 * k + 8), "s" + std::to_string(k * 8 + i) + "." + std::to_string(b)); s[k * 8 + i][b] = pResolve(s[k * 8 + i][b]); (void)nmv; }
    for (u64 k = 0; k < nblk; k++) {
      Blk in = blk(s, k), o = blockDec(in);
      for (u32 i = 0; i < 8; i++) for (u32 b = 0; b < 8; b++) {
        Poly v = o[i][b]; if (8 * k + 16 <= lim) v = sel(ge(8 * k + 16), pXor(v, s[8 * k + 8 + i][b]), v);
        u64 j = 8 * k + i; Poly st = j < 8 ? pay[j][b] : sel(ge(8), s[j][b], pay[j][b]);
        out[j][b] = sel(ge(8 * k + 8), v, st);
      }
    }
    for (u64 j = nblk * 8; j < lim; j++) for (u32 b = 0; b < 8; b++) out[j][b] = sel(ge(j + 1), s[j][b], pay[j][b]);
  } else {
    std::vector<Byte8> ev = pay; Blk next; 
    for (u64 k = nblk; k-- > 0;) {
      Blk in = blk(pay, k); LSet R = ge(8 * k + 8);
      for (u32 i = 0; i < 8; i++) for (u32 b = 0; b < 8; b++) {
        Poly x = in[i][b]; if (8 * k + 16 <= lim) x = sel(ge(8 * k + 16), pXor(x, next[i][b]), x);
        x = pRestrict(x, R); pName(x, R, "x" + std::to_string(8 * k + i) + "." + std::to_string(b)); in[i][b] = pResolve(x);
      }
      next = blockEnc(in, [&](u32 r, u32 x, Byte8 &v) {
        u32 pos = r % 8 == 7 ? x : x - 1; std::string rd = r >= 54 ? "" : "@" + std::to_string(r);
        for (u32 b = 0; b < 8; b++) { pName(v[b], R, "w" + std::to_string(8 * k + pos) + "." + std::to_string(b) + rd); v[b] = pResolve(v[b]); }
      }); for (u32 i = 0; i < 8; i++) for (u32 b = 0; b < 8; b++) ev[8 * k + i][b] = next[i][b];
    }
    Blk iv = blk(ev, 0); LSet R8 = ge(8);
    stream(iv, R8, nks, ks);
    // names for what happens if the stream cipher is run on a packet too short to be enciphered and the result is dropped
    if (sym) { std::vector<Byte8> drop; Blk sh = blk(pay, 0); for (auto &y : sh) for (auto &b : y) b = pRestrict(b, lNot(R8)); stream(sh, lNot(R8), 4, drop); }
    for (u64 j = 0; j < lim; j++) for (u32 b = 0; b < 8; b++) {
      u64 k = j / 8; Poly kb = j >= 8 ? ks[j - 8][b] : 0; Poly st = j >= 8 ? sel(ge(8), pXor(pay[j][b], kb), pay[j][b]) : pay[j][b];
      out[j][b] = k < nblk ? sel(ge(8 * k + 8), pXor(ev[j][b], kb), sel(ge(j + 1), st, pay[j][b])) : sel(ge(j + 1), st, pay[j][b]);
    }
  }
}
bool specSelfCheck(std::string &why) {
  // one round of decipherment undoes one round of encipherment, as an identity over arbitrary register contents
  std::array<Byte8, 8> w, e, d; for (auto &x : w) for (auto &b : x) b = pBase("w"); Byte8 k; for (auto &b : k) b = pBase("k");
  std::vector<std::vector<u64>> tt; for (u32 b = 0; b < 8; b++) { std::vector<u64> t(4, 0); for (u32 i = 0; i < 256; i++) if (SpecTables::blockSbox[i] >> b & 1) t[i / 64] |= 1ull << (i % 64); tt.push_back(t); }
  auto sb = [&](const Byte8 &x) { std::vector<Poly> v(x.begin(), x.end()); Byte8 r; for (u32 b = 0; b < 8; b++) r[b] = pLut(v, tt[b]); return r; };
  Byte8 s = sb(bx(k, w[7]));
  e[0] = w[1]; e[1] = bx(w[2], w[0]); e[2] = bx(w[3], w[0]); e[3] = bx(w[4], w[0]); e[4] = w[5]; e[5] = bx(w[6], permute(s)); e[6] = w[7]; e[7] = bx(w[0], s);
  Byte8 s2 = sb(bx(k, e[6])), l = bx(e[7], s2);
  d[0] = l; d[1] = e[0]; d[2] = bx(e[1], l); d[3] = bx(e[2], l); d[4] = bx(e[3], l); d[5] = e[4]; d[6] = bx(e[5], permute(s2)); d[7] = e[6];
  if (d != w) { why = "block rounds are not inverse"; return false; } return true;
}
