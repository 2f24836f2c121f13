// Abstract bit values: polynomials over GF(2) in canonical form, with packet-length-set coefficients.
//
// A value is a polynomial over GF(2) for each class of packet lengths (or "undefined" for a class), interned.
// Atoms are inputs (key bits, payload bits), or names for values defined over earlier atoms (table look-ups,
// specification values, abbreviations). Two values with the same id are equal for every input.
#pragma once
#include "ir.h"
#include <array>
#include <unordered_map>
#include <functional>
#include <stdexcept>

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

// ---- length sets
extern std::vector<u64> LPTS;                 // the length points
typedef u32 LSet;                             // interned; 0 = empty, 1 = full
void lInit(const std::vector<u64> &pts);
LSet lAnd(LSet a, LSet b); LSet lOr(LSet a, LSet b); LSet lXor(LSet a, LSet b); LSet lNot(LSet a);
LSet lWhere(const std::function<bool(u64)> &f);
bool lHas(LSet a, u32 pt);                    // pt: index into LPTS
inline bool lSub(LSet a, LSet b) { return lAnd(a, b) == a; }
std::string lText(LSet a);
i64 lFirst(LSet a);                           // index of a member, -1 if empty

// ---- values
// A Qid is an interned polynomial over GF(2) in the atoms (0 = zero, 1 = one, 2 = undefined); a Poly is either a Qid
// (the same polynomial for every packet length) or an interned partition of the lengths with a polynomial for each class.
typedef u32 Qid; typedef u32 Poly;
extern u32 FOLD_EPOCH;
extern Poly GARB;

enum AtomK : u8 { A_BASE, A_FOLD, A_LUT, A_AND, A_ABBR, A_PW };
struct Atom { AtomK k; Qid d0, d1; u32 tt; std::vector<Qid> vars; std::string name; };
extern std::vector<Atom> ATOMS;
struct TT { u32 n; std::vector<u64> b; };
extern std::vector<TT> TTS;

extern u64 N_TERMWORK, N_CAPSTAGE; u64 termCount(); void bitsBudget(u64 work);
u32 pCount();
LSet pG(Poly p);                              // lengths for which the bit has no defined value
bool pLonly(Poly p);                          // depends on the packet length only
Poly pDefined(Poly p);                        // some defined value, equal to p where p is defined
void bitsReset();
Poly pBase(const std::string &name);          // new input atom
Poly pAtom(u32 a);
Poly pLen(LSet s);                            // 1 exactly on s
Poly pWithG(Poly p, LSet G);                  // undefined on G as well
Poly pResolve(Poly p);
Poly pXor(Poly a, Poly b); Poly pAnd(Poly a, Poly b); Poly pMux(Poly c, Poly a, Poly b);
inline Poly pNot(Poly a) { return pXor(a, 1); }
inline Poly pOr(Poly a, Poly b) { return pNot(pAnd(pNot(a), pNot(b))); }
inline bool pConst(Poly p) { return p < 2; }
LSet pMay1(Poly p);                           // lengths for which the bit can be 1 (or undefined)
LSet pLset(Poly p);                           // for a length-only poly: where it is 1
Poly pLut(const std::vector<Poly> &vars, const std::vector<u64> &tt);  // var 0 = least significant index bit
Poly pName(Poly def, LSet R, const std::string &what);  // specification name for a value
Poly pRestrict(Poly p, LSet R);               // the value on R only (undefined elsewhere)
extern bool EXPAND; extern u64 N_EXPAND, N_EXPAND_HIT; extern bool TRACE; void traceMisses(u32 from, u32 to);   // development aid: names the analysed code never reached
std::string pText(Poly p, u32 maxTerms = 6);

// evaluation of canonical values at sample points (64 at a time), used to exhibit a witness for a disagreement
struct Eval {
  u32 pt; u64 seed; u64 salt = 0; std::vector<u64> val; std::vector<u8> have; std::unordered_map<std::string, u64> fixed;
  Eval(u32 p, u64 s) : pt(p), seed(s) {}
  u64 base(const std::string &name);
  u64 poly(Poly p); u64 atom(u32 a); u64 qval(Qid p);
};
u64 hash64(u64 x);

// ---- tagged bits
// tag 0: constants and key material; 1..: packet number; T_GT: never-written memory; T_X: node mixing packets
typedef u64 Bit;
const u32 T_GT = 0xFFFFFFFEu, T_X = 0xFFFFFFFFu;
inline u32 bTag(Bit b) { return (u32)(b >> 32); }
inline u32 bId(Bit b) { return (u32)b; }
inline Bit mk(u32 tag, u32 id) { return id < 2 ? (Bit)id : ((u64)tag << 32 | id); }
inline bool bPoly(Bit b) { return bTag(b) < T_GT; }
struct Node { u8 op; Bit a, b, c; std::vector<Bit> v; u32 tt = 0; };   // op: '^' '&' '?' 'L'
extern std::vector<Node> NODES;
extern u64 N_BITOPS;
Bit bUnder(Bit x, Bit mask);                    // x as seen where mask holds: its value if it is defined there
Bit bDefinedWhen(Bit x); Bit bIfDefined(Bit x); bool bPending();
Bit bFresh();                                 // a new undefined bit
void nodesReset();
Bit bXor(Bit a, Bit b); Bit bAnd(Bit a, Bit b); Bit bMux(Bit c, Bit a, Bit b);
inline Bit bNot(Bit a) { return bXor(a, 1); }
inline Bit bOr(Bit a, Bit b) { return bNot(bAnd(bNot(a), bNot(b))); }
Bit bLut(const std::vector<Bit> &idx, const std::vector<u64> &tt);
// samples: every tag has its own length point and seed
struct BEval {
  std::map<u32, Eval *> ev; std::function<Eval *(u32)> make; u64 gseed = 1; bool garb = false; std::unordered_map<u32, std::pair<u64, bool>> memo; bool dense = false; std::vector<u64> dv; std::vector<u8> ds;   // dense: many bits are asked for
  Eval *get(u32 tag); u64 bit(Bit b); ~BEval();
};
