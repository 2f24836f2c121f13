// Decoded form of an LLVM module, independent of LLVM's headers.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

enum TyK : u8 { TY_VOID, TY_INT, TY_PTR, TY_AGG, TY_FP, TY_OTHER };
struct Ty {              // INT covers integers, vectors of integers and x86_mmx
  TyK k = TY_VOID;
  u32 bits = 0;          // total width (INT, PTR)
  u32 lane = 0;          // lane width (== bits for scalars)
  bool vec = false;
  bool mmx = false;
  u32 bytes = 0;         // store size
  std::vector<Ty> sub;   // AGG members
  std::vector<u32> off;  // AGG member offsets
};

struct KVal {            // constant
  enum K : u8 { INT, NULLP, GLOBAL, FUNC, AGG, UNSUP } k = INT;
  u32 bits = 0;
  std::vector<u64> v;      // value words (register order)
  std::vector<u64> undef;  // undef/poison mask (may be empty)
  u32 id = 0; i64 off = 0; // GLOBAL/FUNC
  std::vector<KVal> sub;
  std::string why;
};

enum Op : u8 {
  I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_SHL, I_LSHR, I_ASHR, I_AND, I_OR, I_XOR,
  I_ICMP, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_BITCAST, I_PTRTOINT, I_INTTOPTR, I_FREEZE,
  I_LOAD, I_STORE, I_ALLOCA, I_GEP, I_PHI, I_BR, I_CBR, I_SWITCH, I_RET, I_UNREACHABLE, I_CALL,
  I_EXTRELT, I_INSELT, I_SHUF, I_EXTVAL, I_INSVAL, I_NOP, I_UNSUP
};
enum Pred : u8 { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };

struct Instr {
  Op op = I_NOP;
  int dst = -1;
  Ty ty;                      // result type (stored type for STORE)
  std::vector<int> a;         // operands: >=0 register, <0 constant ~i
  std::vector<u32> blk;       // successor blocks / phi incoming blocks
  std::vector<u64> imm;       // switch case values, shuffle mask(as i64), aggregate indices, gep scales
  i64 off = 0;                // gep constant offset
  u32 align = 1;
  u32 lanes_w = 0;            // operand lane width where it differs from ty.lane
  u8 pred = 0;
  bool nsw = false, nuw = false, escapes = false, inbounds = false;
  int callee = -1;            // defined function index
  std::string name;           // external callee / reason
  int ext = -1;               // interpreter-assigned id of an external callee
  std::vector<u32> argalign;  // alignment attributes of call arguments
  u32 tbaa = 0;               // 0: none or char
  u32 line = 0; u32 file = 0; u32 col = 0; u32 scope = 0;
  Ty argty;                   // type of operand 0 where needed
};

struct Block { std::vector<Instr> ins; u32 nphi = 0; std::vector<u32> pred, succ; bool reachesRet = false; int ipdom = -1; };

struct Func {
  std::string name; bool defined = false, external = false;
  u32 nparam = 0, nreg = 0;
  std::vector<Ty> pty; Ty ret;
  std::string proto;
  std::vector<Block> b;
  std::string srcfile; u32 line = 0;
};

struct Global {
  std::string name; u64 size = 0; u32 align = 1; bool constant = false, tls = false, defined = false;
  bool written = false;      // some instruction may store to it, or its address escapes
  std::vector<u8> bytes;     // initial image
  struct Rel { u64 off; bool func; u32 id; i64 add; };
  std::vector<Rel> rel;
  std::string writer;        // example of a writing instruction
};

struct Module {
  std::vector<Func> f; std::vector<Global> g; std::vector<KVal> k;
  std::map<std::string, int> fidx, gidx;
  std::vector<std::string> files, scopes;
  u32 ptrbits = 64; bool big = false;
  std::vector<std::vector<u32>> tbaaAnc;   // ancestors (self included) per type id
  std::vector<std::string> tbaaName;
  std::string triple;
  u64 ninstr = 0;
};

bool loadModule(const std::string &path, Module &m, std::string &err);
