// Abstract interpreter over the decoded LLVM IR.
//
// Every SSA value and every memory byte is mapped to an abstract value (canonical GF(2) form per bit, see bits.h).
// All control-flow sides of a branch are analysed and joined at the branch's immediate post-dominator, each under the
// condition ("mask") that leads to it; there is no path enumeration and nothing is executed or solved.
#pragma once
#include "bits.h"
#include <memory>
#include <map>
#include <set>

typedef std::vector<Bit> BV;
template <class T> struct Ref {
  T *p = nullptr;
  Ref() {} explicit Ref(T *x) : p(x) { if (p) p->rc++; }
  Ref(const Ref &o) : p(o.p) { if (p) p->rc++; } Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
  Ref &operator=(const Ref &o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
  Ref &operator=(Ref &&o) noexcept { std::swap(p, o.p); return *this; }
  ~Ref() { drop(); } void drop() { if (p && !--p->rc) delete p; p = nullptr; }
  T *operator->() const { return p; } T &operator*() const { return *p; } explicit operator bool() const { return p; }
};
struct Buf { u32 rc = 0; BV b; };
struct Ext;
struct Val {
  enum K : u8 { UNSET, CONST, BITS, PTR, PSET, AGG, FUNC } k = UNSET;
  u32 n = 0;                  // width in bits
  u64 c = 0;                  // CONST
  int obj = 0; i64 off = 0;   // PTR (object 0: null / integer address), FUNC
  Ref<Buf> b;                 // BITS; PTR: variable part of the offset
  Ref<Ext> x;                 // PSET, AGG
  bool isConst() const { return k == CONST; }
};
struct Ext { u32 rc = 0; std::vector<Bit> m; std::vector<Val> v; };
Val vConst(u64 c, u32 n); Val vBits(BV &&b); Val vPtr(int obj, i64 off);

enum OK : u8 { O_NULL, O_STACK, O_GLOBAL, O_HEAP, O_PAYLOAD, O_DESC, O_CW, O_OTHER };
const Bit UNINIT = ~0ull;
struct Obj {
  std::string name; OK kind = O_OTHER; u64 size = 0; u64 tracked = 0; u32 tag = 0; bool lsize = false;   // lsize: size is the length of packet `tag`
  u32 align = 1; BV b; std::vector<u8> ty; bool charOnly = false; std::map<i64, Val> ptrs; bool ro = false, dead = false, freed = false; std::string family; bool dirty = false;
  u32 gid = ~0u; std::vector<Poly> addr; bool constTable = false; std::string roWhat; LSet big = 0;
  bool touched = false, written = false;
  Bit birth = 1;              // a local: the condition under which it came into being; it exists under no other
};
struct Stop : std::runtime_error { using std::runtime_error::runtime_error; };   // analysis of this call ends here
struct Event { std::string kind, where, text, witness; u32 tag; bool confirmed; u64 count; LSet set; };

struct Interp {
  Module &m; std::vector<Obj> o; std::vector<Event> ev; std::map<std::string, u32> evIdx;
  Bit mask = 1; u64 fuel = 0, steps = 0, maxLenRounds = ~0ull; bool stopDataLoop = false; Bit mmxDirty = 0; std::string mmxWhere; u32 depth = 0;
  bool stopAtPayload = false; void payloadTouch(Bit cond);
  bool allocFail = false, descUninit = false; const Instr *cur = nullptr; const Func *curF = nullptr; std::vector<const Func *> stack;
  std::vector<int> gobj; std::vector<std::pair<std::string, std::string>> extCalls; Bit aborted = 0; std::vector<std::string> allocLog;
  u64 nLoads = 0, nStores = 0, nBranches = 0, nDiv = 0, nLut = 0, nCalls = 0, nAcc = 0; std::set<u32> visited; std::set<std::string> funcsSeen;
  std::function<u64(u32)> lenOf;   // witness text: nothing
  explicit Interp(Module &mm);
  int newObj(const std::string &name, OK kind, u64 size, u32 align, u64 tracked = ~0ull);
  int globalObj(u32 g);
  Val call(const std::string &fn, std::vector<Val> args);      // analyse an entry point
  Val callF(u32 f, std::vector<Val> &args);
  // memory
  void event(const std::string &kind, const std::string &text, Bit cond, u32 tag = 0);
  bool possible(Bit c, std::string &wit, LSet *set = nullptr);
  Val load(const Val &p, const Ty &t, u32 align, u32 tbaa);
  void store(const Val &p, const Val &v, const Ty &t, u32 align, u32 tbaa);
  Bit rdBit(Obj &ob, u64 i) { Bit &x = ob.b[i]; if (x == UNINIT) x = bFresh(); return x; }
  Bit inBounds(Obj &ob, i64 off, u64 n);                       // condition under which [off,off+n) is inside
  void access(int obj, i64 off, u64 n, u32 align, bool write, Bit m);
  void memcpyOp(const Val &d, const Val &s, const Val &n, bool isMove);
  void memsetOp(const Val &d, const Val &c, const Val &n);
  std::string where(); Bit toAddrBits(const Val &p, BV &out);
private:
  struct Frame { const Func *f; std::vector<Val> r; std::vector<int> allocas; std::map<u32, u64> lenRounds; };
  struct Arrival { Bit m; std::vector<Val> phi; };
  void run(Frame &f, u32 b, int stop, std::vector<Arrival> &out);
  void lenBranch(Frame &f, u32 b, const Block &B);
  void dataBranch(Frame &f, u32 b, const Block &B, Bit x);
  Val opnd(Frame &f, int a, const Ty *t = nullptr);
  void edge(Frame &f, u32 from, u32 to, std::vector<Val> &phi);
  void assignPhis(Frame &f, u32 b, std::vector<Val> &phi);
  Val merge(std::vector<std::pair<Bit, const Val *>> &v);
  void exec(Frame &f, const Instr &i);
  Val binop(const Instr &i, const Val &a, const Val &b);
  Val arith(Op op, const BV &a, const BV &b, u32 lane, const Instr *i);
  Val icmp(u8 pred, const Val &a, const Val &b, u32 lane);
  Val gep(Frame &f, const Instr &i);
  Val external(Frame &f, const Instr &i);
  Val addOff(const Val &p, const Val &idx, i64 scale, u32 w);
  Val loadAt(int obj, i64 off, const Ty &t, u32 align, u32 tbaa, Bit m);
  void storeAt(int obj, i64 off, const Val &v, const Ty &t, u32 align, u32 tbaa, Bit m);
  Val loadTable(const Val &p, const Ty &t, u32 align, u32 tbaa);
  bool expand(const Val &p, std::vector<std::pair<Bit, Val>> &out);
  void forEach(const Val &p, const std::function<void(Bit, int, i64)> &fn);
  void checkOverflow(const Instr &i, const BV &a, const BV &b);
  struct TabKey { int obj; i64 off; u32 n; std::vector<u32> pos; bool operator<(const TabKey &k) const { return std::tie(obj, off, n, pos) < std::tie(k.obj, k.off, k.n, k.pos); } };
  std::map<TabKey, u32> tabs; std::vector<std::vector<std::vector<u64>>> tabTT; std::unordered_map<u64, std::vector<std::pair<std::vector<u32>, std::vector<Poly>>>> lutCache;
};
void toBV(const Val &v, BV &out);
bool lonlyWord(const BV &v, u32 &tag, std::vector<u64> &vals);   // value per length point
Val fromPoints(const std::vector<u64> &vals, u32 n, u32 tag);
Bit cmpPoints(const std::vector<u64> &a, u32 tag, const std::function<bool(u64)> &f);
