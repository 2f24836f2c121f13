// The DVB Common Scrambling Algorithm, written down independently of the code under analysis, as canonical values.
#pragma once
#include "bits.h"
#include <array>

typedef std::array<Poly, 8> Byte8;       // bit 0 first
struct SpecTables { static const u8 keyPerm[64], blockSbox[256], streamSbox[7][32]; };

struct Spec {
  bool enc; u64 M; u32 nbytes;            // M: packet length limit; nbytes: payload bytes described
  bool sym;                               // lengths are symbolic (LPTS), otherwise the single length `fixed`
  u64 fixed = 0;
  std::vector<Byte8> pay, out;            // payload input bits, expected output bits
  std::array<Poly, 64> key;
  void inputs(bool sym, u32 nbytes, u64 fixedLen);
  void build(bool enc, u64 M);            // registers names, fills out[]
  LSet longer(u64 j) { return sym ? lWhere([&](u64 L) { return L > j; }) : (fixed > j ? 1u : 0u); }
private:
  std::vector<Byte8> kk; bool haveKey = false;
  void keySchedule();
  std::array<Byte8, 8> blockDec(std::array<Byte8, 8> w); std::array<Byte8, 8> blockEnc(std::array<Byte8, 8> w, const std::function<void(u32, u32, Byte8 &)> &nm);
  Byte8 sbox(const Byte8 &x);
  void stream(const std::array<Byte8, 8> &iv, LSet R, u64 count, std::vector<Byte8> &ks);
};
bool specSelfCheck(std::string &why);     // block decipherment inverts encipherment, round by round
