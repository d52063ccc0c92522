#include <functional>
#include <algorithm>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <cerrno>
// pbse: a path-exploring symbolic executor for LLVM 18 bitcode. See DESIGN.md.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <algorithm>
#include <chrono>
#include <deque>
#include <map>
#include <set>
#include <memory>
#include <atomic>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>

using namespace llvm;
typedef uint64_t u64;
static const unsigned ABITS = 40;

// ---------------------------------------------------------------- options
static std::string o_bc, o_entry = "harness", o_out;
static u64 o_maxsteps = 3000000, o_maxobj = 1 << 20, o_symsize = 0;
static unsigned o_maxdepth = 200, o_workers = 8, o_frontier = 256, o_samples = 64, o_maxerrors = 64;
static double o_timeout = 600;
static bool o_trace = false;
static u64 o_seed = 1;

// ---------------------------------------------------------------- values
struct Val { E e; u64 c; };
static inline Val V(u64 c) { return Val{nullptr, c}; }
static inline Val fromE(E e) {
  if (e->op == Op::Const && e->width <= 64) return Val{nullptr, (u64)e->val};
  return Val{e, 0};
}
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ---------------------------------------------------------------- memory
enum Kind : uint8_t { KGlobal, KConst, KStack, KHeap, KFunc };
struct Obj {
  int rc = 1;
  Kind kind = KHeap;
  u64 size = 0;
  std::vector<uint8_t> data;
  std::vector<E> sym;            // empty, or one entry per byte (null: concrete)
  int fn = -1;
  E ssize = nullptr;             // size of a block whose size is symbolic (size is then its bound)
};
struct Page { int rc = 1; Obj *o[32] = {}; };
static void objDrop(Obj *o) { if (o && --o->rc == 0) delete o; }
static void pageDrop(Page *p) { if (p && --p->rc == 0) { for (Obj *o : p->o) objDrop(o); delete p; } }

struct Mem {
  std::vector<Page *> pages;
  u64 next = 1;
  Mem() {}
  Mem(const Mem &m) : pages(m.pages), next(m.next) { for (Page *p : pages) if (p) p->rc++; }
  Mem &operator=(const Mem &) = delete;
  ~Mem() { for (Page *p : pages) pageDrop(p); }
  Page *wpage(u64 i) {
    Page *&p = pages[i];
    if (!p) { p = new Page; return p; }
    if (p->rc > 1) {
      Page *q = new Page; memcpy(q->o, p->o, sizeof q->o);
      for (Obj *o : q->o) if (o) o->rc++;
      p->rc--; p = q;
    }
    return p;
  }
  Obj *get(u64 id) const {
    u64 i = id >> 5;
    if (i >= pages.size() || !pages[i]) return nullptr;
    return pages[i]->o[id & 31];
  }
  Obj *wget(u64 id) {
    Page *p = wpage(id >> 5);
    Obj *&o = p->o[id & 31];
    if (o->rc > 1) { Obj *n = new Obj(*o); n->rc = 1; o->rc--; o = n; }
    return o;
  }
  u64 alloc(u64 size, Kind k, bool undef) {
    u64 id = next++;
    if ((id >> 5) >= pages.size()) pages.resize((id >> 5) + 1, nullptr);
    Obj *o = new Obj; o->kind = k; o->size = size; o->data.assign(size, 0);
    if (undef && size) o->sym.assign(size, mkUndef(8));
    wpage(id >> 5)->o[id & 31] = o;
    return id << ABITS;
  }
  void release(u64 id) {
    Page *p = wpage(id >> 5);
    objDrop(p->o[id & 31]); p->o[id & 31] = nullptr;
    if ((id >> 5) + 1 < (next >> 5)) {
      for (Obj *o : p->o) if (o) return;
      pageDrop(p); pages[id >> 5] = nullptr;
    }
  }
};

// ---------------------------------------------------------------- decoded code
struct Gep { int32_t idx; int64_t scale; unsigned w; };
enum class IOp : uint8_t {
  Bin, ICmp, Load, Store, Gep, Alloca, Br, CondBr, Switch, Ret, Call, Select, Cast, Copy,
  Extract, Insert, ExtElem, InsElem, Shuffle, Unreachable, Bad
};
enum class CastK : uint8_t { Trunc, ZExt, SExt, Bit };
struct Edge { int target; std::vector<std::pair<int32_t, int32_t>> copies; }; // (src operand slot, dst slot)
struct FnInfo;
struct Ins {
  IOp op; Op bop = Op::Add; CastK ck = CastK::Bit;
  uint8_t pred = 0; bool lanes = false;
  unsigned w = 0, sw = 0;        // result width, source width (lane widths when lanes)
  unsigned nl = 1;
  int32_t dst = -1; unsigned slots = 1;
  std::vector<int32_t> a;        // operand bases
  std::vector<unsigned> as;      // operand slot counts
  std::vector<unsigned> aw;      // operand widths
  std::vector<Gep> geps; int64_t off = 0;
  std::vector<Edge> edges;
  std::vector<u64> cases; std::vector<int> caseEdge;
  std::vector<int> shuf;
  std::vector<std::pair<u64, unsigned>> parts; // load/store: (offset,width) per slot
  u64 msize = 0;
  int fn = -1; Intrinsic::ID iid = Intrinsic::not_intrinsic; int ext = -1;
  std::vector<u64> byval;
  int line = 0; const char *bad = nullptr;
  int block = 0;
};
struct FnInfo {
  Function *f = nullptr; std::string name, file;
  std::vector<Ins> code; std::vector<int> blockStart;
  unsigned nregs = 0; unsigned nargsSlots = 0; std::vector<std::pair<int, unsigned>> args;
  bool hasBody = false, decoded = false; bool vararg = false;
  std::vector<uint8_t> covered;  // per block
  u64 calls = 0;
};
static std::vector<FnInfo> fns;
static std::map<Function *, int> fnIndex;
static std::vector<Val> consts;
static std::map<Constant *, std::pair<int, unsigned>> constIdx;
static std::map<const GlobalValue *, u64> gaddr;
static std::unique_ptr<Module> mod;
static const DataLayout *DL;
static std::string repoPrefix;

struct Frame {
  int fn; int pc; int retDst; unsigned retSlots;
  std::vector<Val> r;
  std::vector<u64> allocas;
};
struct State {
  std::vector<Frame> st;
  Mem mem;
  PathCond pc;
  unsigned nsym = 0;
  u64 steps = 0, stackBytes = 0;
  std::vector<Val> obs; u64 reach = 0;
  unsigned forks = 0;
  u64 mallocFail = ~0ull;        // allocations until the injected failure
  State() {}
  State(const State &o) = default;
};

struct Finding { std::string kind, func, msg; int line; std::vector<uint8_t> in; std::vector<std::string> trace; std::string smt; };
struct Sample { std::vector<uint8_t> in; u64 hash; };
struct Results {
  u64 paths = 0, steps = 0, forks = 0, dead = 0;
  std::map<std::string, Finding> errors;
  u64 errorCount = 0;
  std::vector<Sample> samples; u64 sampleSeen = 0;
  u64 reach = 0; u64 maxsteps = 0; unsigned maxsyms = 0;
  std::string incomplete;
  std::map<std::string, std::string> unsup;
};
static Results R;

static std::deque<State *> work;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

struct PathEnd {};               // the current path terminates

static std::vector<uint8_t> inputOf(const State &s, const Model &m) {
  return std::vector<uint8_t>(m.v, m.v + s.nsym);
}
static std::vector<std::string> backtrace(const State &s) {
  std::vector<std::string> t;
  for (size_t i = s.st.size(); i-- > 0;) {
    auto &f = s.st[i]; auto &F = fns[f.fn];
    t.push_back(F.name + ":" + std::to_string(f.pc < (int)F.code.size() ? F.code[f.pc].line : 0));
  }
  return t;
}
static bool inHarness(const FnInfo &F) { return F.file.compare(0, repoPrefix.size(), repoPrefix) != 0; }
static void recordError(State &s, const std::string &kind, const std::string &msg, const Model &m, const std::string &smt = "") {
  R.errorCount++;
  Finding e; e.kind = kind; e.msg = msg; e.line = 0;
  for (size_t i = s.st.size(); i-- > 0;) {
    auto &F = fns[s.st[i].fn];
    if (!inHarness(F) || i == 0) { e.func = F.name; e.line = F.code[s.st[i].pc].line; break; }
  }
  std::string key = kind + "|" + e.func + "|" + msg;
  e.in = inputOf(s, m); e.trace = backtrace(s); e.smt = smt;
  auto it = R.errors.find(key);
  if (it != R.errors.end()) {
    if (e.in.size() < it->second.in.size()) it->second = e;   // keep a short witness
    return;
  }
  if (R.errors.size() >= o_maxerrors) return;
  R.errors[key] = e;
}
[[noreturn]] static void fail(State &s, const char *kind, const std::string &msg) {
  recordError(s, kind, msg, s.pc.model);
  throw PathEnd{};
}
[[noreturn]] static void unsupported(State &s, const std::string &what) {
  auto &F = fns[s.st.back().fn];
  R.incomplete = "unsupported: " + what + " in " + F.name + ":" + std::to_string(F.code[s.st.back().pc].line);
  R.unsup[R.incomplete] = "";
  throw PathEnd{};
}

static bool hasCons(const State &s, E c) {
  size_t n = s.pc.cons.size(), k = n > 64 ? n - 64 : 0;
  for (size_t i = n; i-- > k;) if (s.pc.cons[i] == c) return true;
  return false;
}
static void forkState(State &s, E cond, const Model &m) {
  State *n = new State(s);
  addConstraint(n->pc, cond, m);
  n->forks++; R.forks++;
  work.push_back(n);
}
// Decide a one-bit condition on this path, forking the other outcome.
static bool decide(State &s, E c) {
  if (isConst(c)) return c->val != 0;
  if (c->undef) fail(s, "uninit", "decision depends on uninitialised memory");
  if (hasCons(s, c)) return true;
  E nc = mkNot(c);
  if (hasCons(s, nc)) return false;
  bool v = evalExpr(c, s.pc.model.v) != 0;
  E other = v ? nc : c;
  Model m;
  bool f;
  try { f = feasible(s.pc, other, m); }
  catch (SolverUnknown &u) { R.incomplete = "solver: " + u.why; throw PathEnd{}; }
  Model keep = s.pc.model;
  if (f) { forkState(s, other, m); addConstraint(s.pc, v ? c : nc, keep); }
  return v;
}
static u64 concretize(State &s, const Val &v, unsigned w) {
  if (!v.e) return v.c;
  if (v.e->undef) fail(s, "uninit", "value used as address or size depends on uninitialised memory");
  u64 x = (u64)evalExpr(v.e, s.pc.model.v);
  decide(s, mkBin(Op::Eq, v.e, mkConst(x, w)));
  return x;
}
// A safety condition that must hold on every input of this path.
static void require(State &s, E c, const char *kind, const std::string &msg) {
  if (isConst(c)) { if (!c->val) fail(s, kind, msg); return; }
  if (hasCons(s, c)) return;
  E nc = mkNot(c);
  Model m;
  try {
    sstats.checks++;
    if (feasible(s.pc, nc, m, !strcmp(kind, "check"))) {
      recordError(s, kind, msg, m, toSMT2(s.pc, nc));
      Model m2;
      if (!feasible(s.pc, c, m2)) throw PathEnd{};
      addConstraint(s.pc, c, m2);
    }
  } catch (SolverUnknown &u) { R.incomplete = "solver: " + u.why; throw PathEnd{}; }
}

// ---------------------------------------------------------------- memory access
struct Loc { u64 id, off; Obj *o; E symoff; };

static Loc locate(State &s, const Val &p, u64 n, bool write, const char *what, int depth = 0) {
  Loc L; L.symoff = nullptr;
  u64 a;
  if (p.e) {
    if (p.e->undef) fail(s, "uninit", std::string(what) + " through a pointer that depends on uninitialised memory");
    E e = p.e;
    // settle pointer selections first
    std::vector<E> todo{e};
    for (int guard = 0; !todo.empty() && guard < 64; guard++) {
      E x = todo.back(); todo.pop_back();
      if (x->op == Op::Ite) {
        bool t = decide(s, x->a);
        E nx = t ? x->b : x->c;
        // rebuild under the settled choice
        if (x == e) { return locate(s, fromE(nx), n, write, what, depth + 1); }
        return locate(s, fromE(mkBin(e->op, e->a == x ? nx : e->a, e->b == x ? nx : e->b)), n, write, what, depth + 1);
      }
      if (x == e && x->op == Op::Add) { todo.push_back(x->a); todo.push_back(x->b);
        if (x->a->op != Op::Ite && x->b->op != Op::Ite) break; }
    }
    a = (u64)evalExpr(e, s.pc.model.v);
    u64 id = a >> ABITS; Obj *o = id ? s.mem.get(id) : nullptr;
    if (!o || o->kind == KFunc || o->size < n) {
      fail(s, !id ? "null" : "oob", std::string("invalid ") + what + " (symbolic address)");
    }
    E base = mkConst(id << ABITS, 64);
    E off = mkBin(Op::Sub, e, base);
    char msg[160]; snprintf(msg, sizeof msg, "%s outside object of %s memory", what, o->kind == KHeap ? "heap" : o->kind == KStack ? "stack" : "global");
    // the address may lie in several objects: settle which one first
    E in = mkBin(Op::Ule, off, mkConst(o->size - n, 64)), hi = mkBin(Op::LShr, e, mkConst(ABITS, 64));
    if (!isConst(in) && !isConst(hi) && !hasCons(s, in)) {
      Model m; bool f;
      try { f = feasible(s.pc, mkNot(in), m); } catch (SolverUnknown &u) { R.incomplete = "solver: " + u.why; throw PathEnd{}; }
      if (f) decide(s, mkBin(Op::Eq, hi, mkConst(id, 64)));
    }
    require(s, in, "oob", msg);
    if (o->ssize) require(s, mkBin(Op::Ule, mkBin(Op::Add, off, mkConst(n, 64)), o->ssize), "oob", msg);
    if (!write && n <= 8 && o->size <= 512 && (o->kind == KConst)) {
      L.id = id; L.off = 0; L.o = o; L.symoff = off; return L;
    }
    u64 v = concretize(s, fromE(e), 64);
    a = v;
  } else a = p.c;
  L.id = a >> ABITS; L.off = a & ((1ull << ABITS) - 1);
  if (!L.id) fail(s, "null", std::string(what) + " through null or invalid pointer");
  L.o = s.mem.get(L.id);
  if (!L.o) {
    if (L.id < s.mem.next) fail(s, "uaf", std::string(what) + " of released memory");
    fail(s, "wild", std::string(what) + " through wild pointer");
  }
  if (L.o->kind == KFunc) fail(s, "wild", std::string(what) + " of a function address");
  if (n > L.o->size || L.off > L.o->size - n) {
    if (n == 0 && L.off <= L.o->size) {}
    else {
      char msg[160]; snprintf(msg, sizeof msg, "%s outside object of %s memory", what, L.o->kind == KHeap ? "heap" : L.o->kind == KStack ? "stack" : "global");
      fail(s, "oob", msg);
    }
  }
  if (L.o->ssize && n) require(s, mkBin(Op::Ule, mkConst(L.off + n, 64), L.o->ssize), "oob", std::string(what) + " outside object of heap memory");
  if (write && L.o->kind == KConst) fail(s, "ro", "write to constant memory");
  return L;
}

static inline Val rdByte(const Obj *o, u64 i) {
  if (!o->sym.empty() && o->sym[i]) return Val{o->sym[i], 0};
  return V(o->data[i]);
}
static E rdBytesE(const Obj *o, u64 off, unsigned n) {
  E r = nullptr;
  for (unsigned i = n; i-- > 0;) {
    Val b = rdByte(o, off + i);
    E e = toE(b, 8);
    r = r ? mkConcat(r, e) : e;
  }
  return r;
}
static Val rdBits(const Obj *o, u64 off, unsigned w) {
  unsigned n = (w + 7) / 8;
  bool conc = true;
  if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { conc = false; break; }
  if (conc && w <= 64) {
    u64 v = 0; memcpy(&v, &o->data[off], n);
    return V(w == 64 ? v : v & ((1ull << w) - 1));
  }
  // assemble little-endian, low part first so adjacent extracts merge
  E r = toE(rdByte(o, off + n - 1), 8);
  for (unsigned i = n - 1; i-- > 0;) r = mkConcat(r, toE(rdByte(o, off + i), 8));
  if (w < n * 8) r = mkExtract(r, 0, w);
  return fromE(r);
}
static void wrBits(Obj *o, u64 off, const Val &v, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (!v.e) {
    u64 x = v.c; memcpy(&o->data[off], &x, n);
    if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr;
    return;
  }
  E e = v.e; if (e->width < n * 8) e = mkZExt(e, n * 8);
  if (o->sym.empty()) o->sym.assign(o->size, nullptr);
  for (unsigned i = 0; i < n; i++) {
    E b = mkExtract(e, i * 8, 8);
    if (isConst(b)) { o->sym[off + i] = nullptr; o->data[off + i] = (uint8_t)b->val; }
    else { o->sym[off + i] = b; o->data[off + i] = 0; }
  }
}

static Val loadVal(State &s, const Val &p, unsigned w) {
  unsigned n = (w + 7) / 8;
  Loc L = locate(s, p, n, false, "read");
  if (!L.symoff) return rdBits(L.o, L.off, w);
  E r = nullptr;
  for (u64 k = 0; k + n <= L.o->size; k++) {
    E c = mkBin(Op::Eq, L.symoff, mkConst(k, 64));
    if (!implied(s.pc, c)) continue;
    E v = toE(rdBits(L.o, k, w), w);
    r = r ? mkIte(c, v, r) : v;
  }
  if (!r) fail(s, "oob", "read outside object of constant memory");
  // a table of few values: settle which
  if (!isConst(r) && r->single >= 0 && !r->undef && w <= 64 && distinct(s.pc, r, 4) <= 4) return Val{nullptr, concretize(s, fromE(r), w)};
  return fromE(r);
}
static void storeVal(State &s, const Val &p, const Val &v, unsigned w) {
  Loc L = locate(s, p, (w + 7) / 8, true, "write");
  wrBits(s.mem.wget(L.id), L.off, v, w);
}

// ---------------------------------------------------------------- decoding IR
static unsigned tyWidth(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  if (auto *v = dyn_cast<FixedVectorType>(t)) return tyWidth(v->getElementType()) * v->getNumElements();
  return 0;
}
static void flatten(Type *t, std::vector<std::pair<u64, unsigned>> &out, u64 off) {
  if (auto *s = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) flatten(s->getElementType(i), out, off + sl->getElementOffset(i));
  } else if (auto *a = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(a->getElementType());
    for (unsigned i = 0; i < a->getNumElements(); i++) flatten(a->getElementType(), out, off + i * es);
  } else out.push_back({off, tyWidth(t)});
}
static unsigned nslots(Type *t) {
  if (t->isVoidTy()) return 0;
  std::vector<std::pair<u64, unsigned>> p; flatten(t, p, 0); return p.size();
}

static void constVals(Constant *c, std::vector<Val> &out);
static u64 constAddr(Constant *c) {
  std::vector<Val> v; constVals(c, v); return v[0].c;
}
static void constVals(Constant *c, std::vector<Val> &out) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = ci->getBitWidth();
    if (w <= 64) out.push_back(V(ci->getZExtValue()));
    else { APInt a = ci->getValue(); u128 v = a.extractBitsAsZExtValue(64, 0); v |= (u128)a.extractBitsAsZExtValue(w - 64, 64) << 64; out.push_back(Val{mkConst(v, w), 0}); }
  } else if (auto *cf = dyn_cast<ConstantFP>(c)) {
    out.push_back(V(cf->getValueAPF().bitcastToAPInt().getLimitedValue()));
  } else if (isa<ConstantPointerNull>(c)) out.push_back(V(0));
  else if (isa<UndefValue>(c)) {
    std::vector<std::pair<u64, unsigned>> p; flatten(t, p, 0);
    for (auto &x : p) out.push_back(Val{mkUndef(x.second), 0});
  } else if (auto *gv = dyn_cast<GlobalValue>(c)) {
    auto it = gaddr.find(gv);
    out.push_back(V(it == gaddr.end() ? 0 : it->second));
  } else if (isa<ConstantAggregateZero>(c) && !t->isVectorTy()) {
    std::vector<std::pair<u64, unsigned>> p; flatten(t, p, 0);
    for (auto &x : p) out.push_back(x.second <= 64 ? V(0) : Val{mkConst(0, x.second), 0});
  } else if (t->isVectorTy()) {
    auto *vt = cast<FixedVectorType>(t); unsigned lw = tyWidth(vt->getElementType());
    E e = nullptr;
    for (unsigned i = 0; i < vt->getNumElements(); i++) {
      std::vector<Val> l; constVals(c->getAggregateElement(i), l);
      E x = toE(l[0], lw); e = e ? mkConcat(x, e) : x;
    }
    out.push_back(fromE(e));
  } else if (isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
    unsigned n = isa<ConstantDataSequential>(c) ? cast<ConstantDataSequential>(c)->getNumElements() : c->getNumOperands();
    for (unsigned i = 0; i < n; i++) constVals(c->getAggregateElement(i), out);
  } else if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (!g->accumulateConstantOffset(*DL, off)) { errs() << "const gep\n"; exit(4); }
      out.push_back(V(constAddr(cast<Constant>(g->getPointerOperand())) + off.getSExtValue()));
    } else if (ce->isCast()) {
      std::vector<Val> v; constVals(ce->getOperand(0), v);
      unsigned w = tyWidth(t); out.push_back(V(w < 64 ? v[0].c & ((1ull << w) - 1) : v[0].c));
    } else if (ce->getOpcode() == Instruction::Sub || ce->getOpcode() == Instruction::Add) {
      u64 x = constAddr(ce->getOperand(0)), y = constAddr(ce->getOperand(1));
      u64 r = ce->getOpcode() == Instruction::Sub ? x - y : x + y; unsigned w = tyWidth(t);
      out.push_back(V(w < 64 ? r & ((1ull << w) - 1) : r));
    } else { errs() << "engine: unsupported constant expression: " << *ce << "\n"; exit(4); }
  } else { errs() << "engine: unsupported constant: " << *c << "\n"; exit(4); }
}
static void initObj(Obj *o, Constant *c, u64 off) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c)) return;
  if (isa<UndefValue>(c)) return;
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) initObj(o, c->getAggregateElement(i), off + sl->getElementOffset(i));
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) initObj(o, c->getAggregateElement(i), off + i * es);
    return;
  }
  std::vector<Val> v; constVals(c, v);
  wrBits(o, off, v[0], tyWidth(t));
}

static std::map<const Value *, std::pair<int, unsigned>> *curRegs;
static int32_t operand(Value *v, unsigned *slots = nullptr) {
  if (auto *c = dyn_cast<Constant>(v)) {
    auto it = constIdx.find(c);
    if (it == constIdx.end()) {
      std::vector<Val> vs; constVals(c, vs);
      int base = consts.size(); consts.insert(consts.end(), vs.begin(), vs.end());
      it = constIdx.insert({c, {base, (unsigned)vs.size()}}).first;
    }
    if (slots) *slots = it->second.second;
    return -(it->second.first + 1);
  }
  auto it = curRegs->find(v);
  if (it == curRegs->end()) { if (slots) *slots = 0; return 0; }
  if (slots) *slots = it->second.second;
  return it->second.first;
}
static inline int32_t slotOf(int32_t base, unsigned i) { return base >= 0 ? base + (int)i : base - (int)i; }

static unsigned aggSlot(Type *t, ArrayRef<unsigned> idx) {
  unsigned s = 0;
  for (unsigned i : idx) {
    if (auto *st = dyn_cast<StructType>(t)) {
      for (unsigned k = 0; k < i; k++) s += nslots(st->getElementType(k));
      t = st->getElementType(i);
    } else { auto *at = cast<ArrayType>(t); s += i * nslots(at->getElementType()); t = at->getElementType(); }
  }
  return s;
}

static const char *externNames[] = {
  "sym_bytes", "sym_u8", "sym_u32", "sym_u64", "sym_range", "sym_assume", "sym_check", "sym_reach", "sym_obs",
  "sym_concretize", "sym_is_symbolic_engine", "sym_stack_used", "malloc", "free", "realloc", "calloc", "memcmp",
  "abort", "__assert_fail", "exit", "fprintf", "printf", "memcpy", "memmove", "memset", "sym_heap_live", "puts", "fputc", "fwrite", "sym_fail", "putchar", "bcmp", "sym_malloc_fail", "snprintf", "sym_block_holds", nullptr
};
enum Ext { X_bytes, X_u8, X_u32, X_u64, X_range, X_assume, X_check, X_reach, X_obs, X_conc, X_engine, X_stack,
  X_malloc, X_free, X_realloc, X_calloc, X_memcmp, X_abort, X_assertfail, X_exit, X_fprintf, X_printf, X_memcpy, X_memmove, X_memset, X_heaplive, X_puts, X_fputc, X_fwrite, X_fail, X_putchar, X_bcmp, X_mfail, X_snprintf, X_holds };

static void decodeFn(int fi) {
  FnInfo &F = fns[fi];
  F.decoded = true;
  Function *f = F.f;
  std::map<const Value *, std::pair<int, unsigned>> regs;
  curRegs = &regs;
  unsigned nr = 0;
  for (auto &a : f->args()) { unsigned n = nslots(a.getType()); regs[&a] = {nr, n}; F.args.push_back({(int)nr, n}); nr += n; }
  F.nargsSlots = nr;
  for (auto &b : *f) for (auto &i : b) {
    unsigned n = nslots(i.getType());
    if (n) { regs[&i] = {nr, n}; nr += n; }
  }
  F.nregs = nr;
  std::map<BasicBlock *, int> bi; int k = 0;
  for (auto &b : *f) bi[&b] = k++;
  F.blockStart.assign(k, 0); F.covered.assign(k, 0);
  auto mkEdge = [&](BasicBlock *from, BasicBlock *to) {
    Edge e; e.target = bi[to];
    for (auto &phi : to->phis()) {
      Value *v = phi.getIncomingValueForBlock(from);
      unsigned n; int32_t src = operand(v, &n); int dst = regs[&phi].first;
      for (unsigned i = 0; i < regs[&phi].second; i++) e.copies.push_back({slotOf(src, i), dst + (int)i});
    }
    return e;
  };
  for (auto &b : *f) {
    F.blockStart[bi[&b]] = F.code.size();
    for (auto &i : b) {
      if (isa<PHINode>(i)) continue;
      if (isa<DbgInfoIntrinsic>(i)) continue;
      Ins I; I.op = IOp::Bad; I.block = bi[&b];
      if (auto &dl = i.getDebugLoc()) I.line = dl.getLine();
      auto rit = regs.find(&i);
      if (rit != regs.end()) { I.dst = rit->second.first; I.slots = rit->second.second; }
      Type *ty = i.getType();
      I.w = ty->isSized() && !ty->isVoidTy() ? tyWidth(ty) : 0;
      auto addOp = [&](Value *v) { unsigned n; I.a.push_back(operand(v, &n)); I.as.push_back(n); I.aw.push_back(v->getType()->isSized() ? tyWidth(v->getType()) : 0); };
      auto vecInfo = [&](Type *t) { if (auto *vt = dyn_cast<FixedVectorType>(t)) { I.lanes = true; I.nl = vt->getNumElements(); } };
      if (auto *bo = dyn_cast<BinaryOperator>(&i)) {
        addOp(bo->getOperand(0)); addOp(bo->getOperand(1)); vecInfo(ty);
        I.op = IOp::Bin;
        switch (bo->getOpcode()) {
          case Instruction::Add: I.bop = Op::Add; break; case Instruction::Sub: I.bop = Op::Sub; break;
          case Instruction::Mul: I.bop = Op::Mul; break; case Instruction::UDiv: I.bop = Op::UDiv; break;
          case Instruction::SDiv: I.bop = Op::SDiv; break; case Instruction::URem: I.bop = Op::URem; break;
          case Instruction::SRem: I.bop = Op::SRem; break; case Instruction::And: I.bop = Op::And; break;
          case Instruction::Or: I.bop = Op::Or; break; case Instruction::Xor: I.bop = Op::Xor; break;
          case Instruction::Shl: I.bop = Op::Shl; break; case Instruction::LShr: I.bop = Op::LShr; break;
          case Instruction::AShr: I.bop = Op::AShr; break;
          default: I.op = IOp::Bad; I.bad = "floating point arithmetic";
        }
      } else if (auto *ic = dyn_cast<ICmpInst>(&i)) {
        addOp(ic->getOperand(0)); addOp(ic->getOperand(1)); vecInfo(ic->getOperand(0)->getType());
        I.op = IOp::ICmp; I.pred = ic->getPredicate(); I.sw = tyWidth(ic->getOperand(0)->getType());
      } else if (auto *li = dyn_cast<LoadInst>(&i)) {
        I.op = IOp::Load; addOp(li->getPointerOperand()); flatten(ty, I.parts, 0); I.msize = DL->getTypeStoreSize(ty);
      } else if (auto *si = dyn_cast<StoreInst>(&i)) {
        I.op = IOp::Store; addOp(si->getPointerOperand()); addOp(si->getValueOperand());
        flatten(si->getValueOperand()->getType(), I.parts, 0); I.msize = DL->getTypeStoreSize(si->getValueOperand()->getType());
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
        I.op = IOp::Gep; addOp(g->getPointerOperand());
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          Value *ix = it.getOperand();
          if (StructType *st = it.getStructTypeOrNull()) {
            I.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          } else {
            int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
            if (auto *c = dyn_cast<ConstantInt>(ix)) I.off += sc * c->getSExtValue();
            else I.geps.push_back({operand(ix), sc, tyWidth(ix->getType())});
          }
        }
      } else if (auto *al = dyn_cast<AllocaInst>(&i)) {
        I.op = IOp::Alloca; addOp(al->getArraySize()); I.msize = DL->getTypeAllocSize(al->getAllocatedType());
      } else if (auto *br = dyn_cast<BranchInst>(&i)) {
        if (br->isConditional()) {
          I.op = IOp::CondBr; addOp(br->getCondition());
          I.edges.push_back(mkEdge(&b, br->getSuccessor(0))); I.edges.push_back(mkEdge(&b, br->getSuccessor(1)));
        } else { I.op = IOp::Br; I.edges.push_back(mkEdge(&b, br->getSuccessor(0))); }
      } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
        I.op = IOp::Switch; addOp(sw->getCondition()); I.sw = tyWidth(sw->getCondition()->getType());
        std::map<BasicBlock *, int> em;
        auto edge = [&](BasicBlock *t) { auto it = em.find(t); if (it != em.end()) return it->second;
          int k = I.edges.size(); I.edges.push_back(mkEdge(&b, t)); em[t] = k; return k; };
        edge(sw->getDefaultDest());
        for (auto &c : sw->cases()) { I.cases.push_back(c.getCaseValue()->getZExtValue()); I.caseEdge.push_back(edge(c.getCaseSuccessor())); }
      } else if (auto *rt = dyn_cast<ReturnInst>(&i)) {
        I.op = IOp::Ret; if (rt->getReturnValue()) addOp(rt->getReturnValue());
      } else if (auto *cb = dyn_cast<CallInst>(&i)) {
        I.op = IOp::Call;
        Function *cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        for (unsigned k = 0; k < cb->arg_size(); k++) {
          Value *av = cb->getArgOperand(k);
          if (av->getType()->isMetadataTy()) { I.a.push_back(0); I.as.push_back(0); I.aw.push_back(0); }
          else addOp(av);
          I.byval.push_back(cb->isByValArgument(k) ? (u64)DL->getTypeAllocSize(cb->getParamByValType(k)) : 0);
        }
        if (cb->isInlineAsm()) { I.op = IOp::Bad; I.bad = "inline assembly"; }
        else if (cf) {
          I.iid = cf->getIntrinsicID();
          auto it = fnIndex.find(cf);
          if (it != fnIndex.end()) I.fn = it->second;
          if (cf->isDeclaration() && I.iid == Intrinsic::not_intrinsic) {
            I.ext = -2;
            for (int k = 0; externNames[k]; k++) if (cf->getName() == externNames[k]) I.ext = k;
          }
        } else { I.fn = -2; addOp(cb->getCalledOperand()); }
      } else if (auto *se = dyn_cast<SelectInst>(&i)) {
        I.op = IOp::Select; addOp(se->getCondition()); addOp(se->getTrueValue()); addOp(se->getFalseValue());
        if (se->getCondition()->getType()->isVectorTy()) vecInfo(se->getCondition()->getType());
        flatten(ty, I.parts, 0);
      } else if (auto *ca = dyn_cast<CastInst>(&i)) {
        addOp(ca->getOperand(0)); I.sw = tyWidth(ca->getOperand(0)->getType()); I.op = IOp::Cast;
        switch (ca->getOpcode()) {
          case Instruction::Trunc: I.ck = CastK::Trunc; vecInfo(ty); break;
          case Instruction::ZExt: I.ck = CastK::ZExt; vecInfo(ty); break;
          case Instruction::SExt: I.ck = CastK::SExt; vecInfo(ty); break;
          case Instruction::BitCast: I.ck = CastK::Bit; break;
          case Instruction::PtrToInt: case Instruction::IntToPtr:
            I.ck = I.w < I.sw ? CastK::Trunc : I.w > I.sw ? CastK::ZExt : CastK::Bit; break;
          default: I.op = IOp::Bad; I.bad = "floating point conversion";
        }
      } else if (isa<FreezeInst>(i)) { I.op = IOp::Copy; addOp(i.getOperand(0)); }
      else if (auto *ev = dyn_cast<ExtractValueInst>(&i)) {
        I.op = IOp::Extract; addOp(ev->getAggregateOperand()); I.off = aggSlot(ev->getAggregateOperand()->getType(), ev->getIndices());
      } else if (auto *iv = dyn_cast<InsertValueInst>(&i)) {
        I.op = IOp::Insert; addOp(iv->getAggregateOperand()); addOp(iv->getInsertedValueOperand()); I.off = aggSlot(ty, iv->getIndices());
      } else if (auto *ee = dyn_cast<ExtractElementInst>(&i)) {
        I.op = IOp::ExtElem; addOp(ee->getVectorOperand()); addOp(ee->getIndexOperand());
      } else if (auto *ie = dyn_cast<InsertElementInst>(&i)) {
        I.op = IOp::InsElem; addOp(ie->getOperand(0)); addOp(ie->getOperand(1)); addOp(ie->getOperand(2));
      } else if (auto *sv = dyn_cast<ShuffleVectorInst>(&i)) {
        I.op = IOp::Shuffle; addOp(sv->getOperand(0)); addOp(sv->getOperand(1));
        I.nl = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
        for (int m : sv->getShuffleMask()) I.shuf.push_back(m);
      } else if (isa<UnreachableInst>(i)) I.op = IOp::Unreachable;
      else { I.bad = i.getOpcodeName(); }
      F.code.push_back(std::move(I));
    }
  }
}

// ---------------------------------------------------------------- execution
static inline const Val &rd(const Frame &f, int32_t i) { return i >= 0 ? f.r[i] : consts[-i - 1]; }

static inline u64 msk(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sx(u64 v, unsigned w) { if (w >= 64) return (int64_t)v; u64 s = 1ull << (w - 1); v &= msk(w); return (int64_t)((v ^ s) - s); }

static Val binop(State &s, Op op, const Val &a, const Val &b, unsigned w) {
  if (op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem) {
    if (!b.e) { if (!b.c) fail(s, "div", "division by zero"); }
    else require(s, mkNot(mkBin(Op::Eq, b.e, mkConst(0, w))), "div", "division by zero");
  }
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c, y = b.c, m = msk(w);
    switch (op) {
      case Op::Add: return V((x + y) & m); case Op::Sub: return V((x - y) & m); case Op::Mul: return V((x * y) & m);
      case Op::And: return V(x & y); case Op::Or: return V(x | y); case Op::Xor: return V(x ^ y);
      
      default: return V((u64)evalOp(op, w, x, w, y, w, 0, 0));
    }
  }
  return fromE(mkBin(op, toE(a, w), toE(b, w)));
}
static Val icmp(unsigned pred, const Val &a, const Val &b, unsigned w) {
  if (!a.e && !b.e) {
    u64 x = a.c, y = b.c; int64_t p = sx(x, w), q = sx(y, w);
    switch (pred) {
      case CmpInst::ICMP_EQ: return V(x == y); case CmpInst::ICMP_NE: return V(x != y);
      case CmpInst::ICMP_UGT: return V(x > y); case CmpInst::ICMP_UGE: return V(x >= y);
      case CmpInst::ICMP_ULT: return V(x < y); case CmpInst::ICMP_ULE: return V(x <= y);
      case CmpInst::ICMP_SGT: return V(p > q); case CmpInst::ICMP_SGE: return V(p >= q);
      case CmpInst::ICMP_SLT: return V(p < q); default: return V(p <= q);
    }
  }
  E x = toE(a, w), y = toE(b, w), r;
  switch (pred) {
    case CmpInst::ICMP_EQ: r = mkBin(Op::Eq, x, y); break;
    case CmpInst::ICMP_NE: r = mkNot(mkBin(Op::Eq, x, y)); break;
    case CmpInst::ICMP_UGT: r = mkBin(Op::Ult, y, x); break; case CmpInst::ICMP_UGE: r = mkBin(Op::Ule, y, x); break;
    case CmpInst::ICMP_ULT: r = mkBin(Op::Ult, x, y); break; case CmpInst::ICMP_ULE: r = mkBin(Op::Ule, x, y); break;
    case CmpInst::ICMP_SGT: r = mkBin(Op::Slt, y, x); break; case CmpInst::ICMP_SGE: r = mkBin(Op::Sle, y, x); break;
    case CmpInst::ICMP_SLT: r = mkBin(Op::Slt, x, y); break; default: r = mkBin(Op::Sle, x, y); break;
  }
  return fromE(r);
}
static E lane(E v, unsigned i, unsigned lw) { return mkExtract(v, i * lw, lw); }

static void pushFrame(State &s, int fi, int retDst, unsigned retSlots) {
  FnInfo &F = fns[fi];
  if (!F.decoded) decodeFn(fi);
  if (s.st.size() >= o_maxdepth) fail(s, "recursion", "call depth limit exceeded");
  Frame f; f.fn = fi; f.pc = F.blockStart[0]; f.retDst = retDst; f.retSlots = retSlots;
  f.r.assign(F.nregs, Val{nullptr, 0});
  F.calls++; F.covered[0] = 1;
  s.st.push_back(std::move(f));
}
static void freeAllocas(State &s, Frame &f, size_t keep) {
  while (f.allocas.size() > keep) {
    u64 id = f.allocas.back(); f.allocas.pop_back();
    Obj *o = s.mem.get(id);
    s.stackBytes -= o->size;
    s.mem.release(id);
  }
}
static void takeEdge(State &s, Frame &f, const Edge &e) {
  FnInfo &F = fns[f.fn];
  if (!e.copies.empty()) {
    if (e.copies.size() == 1) f.r[e.copies[0].second] = rd(f, e.copies[0].first);
    else {
      Val tmp[64]; std::vector<Val> big; Val *t = tmp;
      if (e.copies.size() > 64) { big.resize(e.copies.size()); t = big.data(); }
      for (size_t i = 0; i < e.copies.size(); i++) t[i] = rd(f, e.copies[i].first);
      for (size_t i = 0; i < e.copies.size(); i++) f.r[e.copies[i].second] = t[i];
    }
  }
  F.covered[e.target] = 1;
  f.pc = F.blockStart[e.target];
}

static u64 hashObs(State &s) {
  u64 h = 1469598103934665603ull;
  for (auto &v : s.obs) {
    u64 x = v.e ? (u64)evalExpr(v.e, s.pc.model.v) : v.c;
    h = (h ^ x) * 1099511628211ull; h ^= h >> 31;
  }
  return h;
}
static u64 rng = 88172645463325252ull;
static u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static void endPath(State &s) {
  R.paths++; R.steps += s.steps; R.reach |= s.reach;
  if (s.steps > R.maxsteps) R.maxsteps = s.steps;
  if (s.nsym > R.maxsyms) R.maxsyms = s.nsym;
  R.sampleSeen++;
  if (R.samples.size() < o_samples) R.samples.push_back({inputOf(s, s.pc.model), hashObs(s)});
  else { u64 k = rnd() % R.sampleSeen; if (k < o_samples) R.samples[k] = {inputOf(s, s.pc.model), hashObs(s)}; }
}

static void copyMem(State &s, const Val &d, const Val &src, u64 n, bool disjoint) {
  if (!n) return;
  Loc S = locate(s, src, n, false, "read");
  if (S.symoff) { concretize(s, src, 64); S = locate(s, V((u64)evalExpr(src.e, s.pc.model.v)), n, false, "read"); }
  Loc D = locate(s, d, n, true, "write");
  if (disjoint && S.id == D.id && S.off != D.off && S.off < D.off + n && D.off < S.off + n) fail(s, "overlap", "memcpy between overlapping ranges");
  Obj *wo = s.mem.wget(D.id);
  const Obj *so = s.mem.get(S.id);
  bool anySym = !so->sym.empty();
  if (!anySym) {
    memmove(&wo->data[D.off], &so->data[S.off], n);
    if (!wo->sym.empty()) std::fill(wo->sym.begin() + D.off, wo->sym.begin() + D.off + n, nullptr);
  } else {
    if (wo->sym.empty()) wo->sym.assign(wo->size, nullptr);
    memmove(&wo->data[D.off], &so->data[S.off], n);
    memmove(&wo->sym[D.off], &so->sym[S.off], n * sizeof(E));
  }
}
// Size operands: prove the largest possible access in bounds where the size
// is symbolic by concretising it (every feasible value is explored).
static u64 sizeArg(State &s, const Val &v) { return concretize(s, v, 64); }

static void doFree(State &s, const Val &pv) {
  u64 p = concretize(s, pv, 64);
  if (!p) return;
  u64 id = p >> ABITS, off = p & ((1ull << ABITS) - 1);
  Obj *o = s.mem.get(id);
  if (!o) fail(s, id && id < s.mem.next ? "double-free" : "bad-free", "free of released or invalid memory");
  if (o->kind != KHeap || off) fail(s, "bad-free", "free of memory that was not allocated");
  s.mem.release(id);
}
static u64 doMallocSym(State &s, const Val &v) {
  if (s.mallocFail != ~0ull && s.mallocFail-- == 0) { s.mallocFail = ~0ull; return 0; }
  if (v.e->undef) fail(s, "uninit", "allocation size depends on uninitialised memory");
  if (!decide(s, mkBin(Op::Ule, v.e, mkConst(o_symsize, 64)))) return 0;
  u64 p = s.mem.alloc(o_symsize, KHeap, true);
  s.mem.wget(p >> ABITS)->ssize = v.e;
  return p;
}
static u64 doMalloc(State &s, u64 n) {
  if (s.mallocFail != ~0ull && s.mallocFail-- == 0) { s.mallocFail = ~0ull; return 0; }
  if (n > o_maxobj) return 0;
  return s.mem.alloc(n, KHeap, true);
}

// Returns true if a frame was pushed (pc already advanced).
static bool call(State &s, const Ins &I) {
  Frame &f = s.st.back();
  int fi = I.fn;
  size_t na = I.byval.size();
  if (I.iid != Intrinsic::not_intrinsic) {
    auto A = [&](unsigned k) -> const Val & { return rd(f, I.a[k]); };
    switch (I.iid) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: break;
      case Intrinsic::memcpy: case Intrinsic::memmove: {
        u64 n = sizeArg(s, A(2)); copyMem(s, A(0), A(1), n, I.iid == Intrinsic::memcpy); break; }
      case Intrinsic::memset: {
        u64 n = sizeArg(s, A(2)); Val v = A(1);
        if (n) { Loc D = locate(s, A(0), n, true, "write"); Obj *o = s.mem.wget(D.id);
          for (u64 i = 0; i < n; i++) wrBits(o, D.off + i, v, 8); }
        break; }
      case Intrinsic::stacksave: f.r[I.dst] = V(f.allocas.size()); break;
      case Intrinsic::stackrestore: { Val v = A(0); freeAllocas(s, f, (size_t)v.c); break; }
      case Intrinsic::expect: f.r[I.dst] = A(0); break;
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
        unsigned p = I.iid == Intrinsic::umin ? CmpInst::ICMP_ULT : I.iid == Intrinsic::umax ? CmpInst::ICMP_UGT : I.iid == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
        Val c = icmp(p, A(0), A(1), I.w);
        f.r[I.dst] = fromE(mkIte(toE(c, 1), toE(A(0), I.w), toE(A(1), I.w))); break; }
      case Intrinsic::abs: {
        Val c = icmp(CmpInst::ICMP_SLT, A(0), V(0), I.w);
        f.r[I.dst] = fromE(mkIte(toE(c, 1), mkBin(Op::Sub, mkConst(0, I.w), toE(A(0), I.w)), toE(A(0), I.w))); break; }
      case Intrinsic::bswap: {
        E x = toE(A(0), I.w), r = nullptr;
        for (unsigned i = 0; i < I.w / 8; i++) { E b = mkExtract(x, i * 8, 8); r = r ? mkConcat(r, b) : b; }
        f.r[I.dst] = fromE(r); break; }
      case Intrinsic::ctpop: {
        E x = toE(A(0), I.w), r = mkConst(0, I.w);
        for (unsigned i = 0; i < I.w; i++) r = mkBin(Op::Add, r, mkZExt(mkExtract(x, i, 1), I.w));
        f.r[I.dst] = fromE(r); break; }
      case Intrinsic::ctlz: case Intrinsic::cttz: {
        unsigned w = I.w; E x = toE(A(0), w);
        E r = mkConst(w, w);
        unsigned from = 0, to = w;              // bits that may hold the first one
        if (x->single == -2 && !x->undef) {
          // settle which part it is in, so that what follows depends on few bits
          std::vector<std::pair<E, unsigned>> parts;   // most significant first, with low bit
          std::function<void(E, unsigned)> flat = [&](E e, unsigned lo) {
            if (e->op == Op::Concat) { flat(e->a, lo + e->b->width); flat(e->b, lo); }
            else if (e->op == Op::ZExt) { parts.push_back({mkConst(0, e->width - e->a->width), lo + e->a->width}); flat(e->a, lo); }
            else parts.push_back({e, lo}); };
          flat(x, 0);
          if (I.iid == Intrinsic::cttz) std::reverse(parts.begin(), parts.end());
          size_t k = 0;
          for (; k < parts.size(); k++)
            if (!decide(s, mkBin(Op::Eq, parts[k].first, mkConst(0, parts[k].first->width)))) { from = parts[k].second; to = from + parts[k].first->width; break; }
          if (k == parts.size()) { f.r[I.dst] = V(w); break; }
        }
        for (unsigned k = 0; k < w; k++) {      // later iterations take precedence
          unsigned at = I.iid == Intrinsic::ctlz ? k : w - 1 - k;
          if (at < from || at >= to) continue;
          unsigned bit = I.iid == Intrinsic::ctlz ? k : w - 1 - k;
          E c = mkExtract(x, bit, 1);
          if (!isConst(c) && !c->undef) { int im = implied(s.pc, c); if (im >= 0) c = mkConst((u64)im, 1); }
          r = mkIte(c, mkConst(I.iid == Intrinsic::ctlz ? w - 1 - bit : bit, w), r);
        }
        f.r[I.dst] = fromE(r); break; }
      case Intrinsic::fshl: case Intrinsic::fshr: {
        unsigned w = I.w; E hi = toE(A(0), w), lo = toE(A(1), w), sh = mkBin(Op::URem, toE(A(2), w), mkConst(w, w));
        E inv = mkBin(Op::Sub, mkConst(w, w), sh);
        E z = mkBin(Op::Eq, sh, mkConst(0, w));
        E r = I.iid == Intrinsic::fshl ? mkBin(Op::Or, mkBin(Op::Shl, hi, sh), mkBin(Op::LShr, lo, inv))
                                       : mkBin(Op::Or, mkBin(Op::Shl, hi, inv), mkBin(Op::LShr, lo, sh));
        f.r[I.dst] = fromE(mkIte(z, I.iid == Intrinsic::fshl ? hi : lo, r)); break; }
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
        unsigned w = I.aw[0]; E x = toE(A(0), w), y = toE(A(1), w), r, o;
        if (I.iid == Intrinsic::uadd_with_overflow) { r = mkBin(Op::Add, x, y); o = mkBin(Op::Ult, r, x); }
        else if (I.iid == Intrinsic::usub_with_overflow) { r = mkBin(Op::Sub, x, y); o = mkBin(Op::Ult, x, y); }
        else { E p = mkBin(Op::Mul, mkZExt(x, 2 * w), mkZExt(y, 2 * w)); r = mkExtract(p, 0, w);
          o = mkNot(mkBin(Op::Eq, mkExtract(p, w, w), mkConst(0, w))); }
        f.r[I.dst] = fromE(r); f.r[I.dst + 1] = fromE(o); break; }
      case Intrinsic::uadd_sat: case Intrinsic::usub_sat: {
        unsigned w = I.w; E x = toE(A(0), w), y = toE(A(1), w), r;
        if (I.iid == Intrinsic::uadd_sat) { r = mkBin(Op::Add, x, y); r = mkIte(mkBin(Op::Ult, r, x), mkConst(maskw(w), w), r); }
        else r = mkIte(mkBin(Op::Ult, x, y), mkConst(0, w), mkBin(Op::Sub, x, y));
        f.r[I.dst] = fromE(r); break; }
      case Intrinsic::trap: case Intrinsic::ubsantrap: fail(s, "abort", "trap");
      case Intrinsic::objectsize: f.r[I.dst] = V(msk(I.w)); break;
      case Intrinsic::is_constant: f.r[I.dst] = V(0); break;
      default: {
        StringRef n = Intrinsic::getBaseName(I.iid);
        if (n == "llvm.x86.sse2.pmovmskb.128") {
          E x = toE(A(0), 128), r = nullptr;
          for (unsigned i = 0; i < 16; i++) { E b = mkExtract(x, i * 8 + 7, 1); r = r ? mkConcat(b, r) : b; }
          f.r[I.dst] = fromE(mkZExt(r, 32)); break;
        }
        unsupported(s, "intrinsic " + n.str());
      }
    }
    return false;
  }
  if (I.ext != -1) {
    auto A = [&](unsigned k) -> const Val & { return rd(f, I.a[k]); };
    auto newSym = [&]() -> E { if (s.nsym >= MAXSYM) unsupported(s, "too many symbolic bytes"); return mkSym(s.nsym++); };
    auto setR = [&](const Val &v) { if (I.dst >= 0) f.r[I.dst] = v; };
    switch (I.ext) {
      case X_bytes: {
        u64 n = concretize(s, A(1), 64);
        if (n) { Loc D = locate(s, A(0), n, true, "write"); Obj *o = s.mem.wget(D.id);
          for (u64 i = 0; i < n; i++) wrBits(o, D.off + i, Val{newSym(), 0}, 8); }
        break; }
      case X_u8: { E e = newSym(); setR(fromE(I.w > 8 ? mkZExt(e, I.w) : e)); break; }
      case X_u32: case X_u64: {
        unsigned n = I.ext == X_u32 ? 4 : 8; E r = newSym();
        for (unsigned i = 1; i < n; i++) r = mkConcat(newSym(), r);
        setR(fromE(r)); break; }
      case X_range: {                 // lo + concrete choice, every value explored
        u64 lo = A(0).c, hi = A(1).c;
        if (A(0).e || A(1).e || hi < lo || hi - lo > 255) unsupported(s, "sym_range bounds");
        unsigned n = hi - lo;
        // not restartable as such: the fresh byte is allocated again on restart with the same index
        unsigned k = s.nsym; if (k >= MAXSYM) unsupported(s, "too many symbolic bytes");
        E b = mkSym(k);
        E ok = mkBin(Op::Ule, b, mkConst(n, 8));
        if (!isConst(ok) && !hasCons(s, ok)) { Model m = s.pc.model; m.v[k] = 0; addConstraint(s.pc, ok, m); }
        u64 x = (u64)evalExpr(b, s.pc.model.v);
        E eq = mkBin(Op::Eq, b, mkConst(x, 8));
        decide(s, eq);
        s.nsym++;
        setR(V(lo + x)); break; }
      case X_assume: {
        E c = mkNot(mkBin(Op::Eq, toE(A(0), I.aw[0]), mkConst(0, I.aw[0])));
        if (isConst(c)) { if (!c->val) { R.dead++; throw PathEnd{}; } break; }
        Model m;
        try { if (!feasible(s.pc, c, m)) { R.dead++; throw PathEnd{}; } }
        catch (SolverUnknown &u) { R.incomplete = "solver: " + u.why; throw PathEnd{}; }
        addConstraint(s.pc, c, m); break; }
      case X_check: {
        E c = mkNot(mkBin(Op::Eq, toE(A(0), I.aw[0]), mkConst(0, I.aw[0])));
        std::string msg;
        { Val p = A(1); Obj *o = s.mem.get(p.c >> ABITS); u64 off = p.c & ((1ull << ABITS) - 1);
          while (o && off < o->size && o->data[off]) msg += (char)o->data[off++]; }
        if (c->undef) fail(s, "uninit", "check depends on uninitialised memory: " + msg);
        if (isConst(c)) { sstats.checks_const++; if (!c->val) fail(s, "check", msg); break; }
        require(s, c, "check", msg); break; }
      case X_fail: {
        std::string msg;
        { Val p = A(0); Obj *o = s.mem.get(p.c >> ABITS); u64 off = p.c & ((1ull << ABITS) - 1);
          while (o && off < o->size && o->data[off]) msg += (char)o->data[off++]; }
        fail(s, "check", msg); }
      case X_reach: { u64 k = concretize(s, A(0), I.aw[0]); s.reach |= 1ull << (k & 63); break; }
      case X_obs: s.obs.push_back(A(0)); break;
      case X_conc: { u64 x = concretize(s, A(0), I.aw[0]); setR(V(x)); break; }
      case X_engine: setR(V(1)); break;
      case X_stack: setR(V(s.stackBytes)); break;
      case X_snprintf: {             // %s %c and integer conversions, concrete arguments
        auto str = [&](u64 p) { std::string r; Obj *o = s.mem.get(p >> ABITS); u64 off = p & ((1ull << ABITS) - 1);
          while (o && off < o->size && o->data[off]) { if (!o->sym.empty() && o->sym[off]) unsupported(s, "snprintf of symbolic text"); r += (char)o->data[off++]; } return r; };
        u64 n = concretize(s, A(1), 64); std::string fm = str(concretize(s, A(2), 64)), out; unsigned an = 3;
        for (size_t i = 0; i < fm.size(); i++) {
          if (fm[i] != '%') { out += fm[i]; continue; }
          if (fm[i + 1] == '%') { out += '%'; i++; continue; }
          std::string spec = "%"; bool lng = false; i++;
          while (i < fm.size() && strchr("0123456789-+ #.", fm[i])) spec += fm[i++];
          while (i < fm.size() && strchr("zljth", fm[i])) { if (fm[i] != 'h') lng = true; i++; }
          if (i >= fm.size() || an >= I.a.size()) unsupported(s, "snprintf format");
          unsigned w = I.aw[an]; u64 v = concretize(s, A(an), w); an++; char b[128];
          if (fm[i] == 's') out += str(v);
          else if (strchr("dicuxX", fm[i])) { int64_t sv = (fm[i] == 'd' || fm[i] == 'i') && !lng ? (int64_t)(int32_t)v : (int64_t)v;
            spec += fm[i] == 'c' ? "c" : std::string("ll") + fm[i];
            if (fm[i] == 'c') snprintf(b, sizeof b, spec.c_str(), (int)sv); else snprintf(b, sizeof b, spec.c_str(), (long long)sv); out += b; }
          else unsupported(s, "snprintf conversion");
        }
        if (n) { size_t k = std::min<size_t>(out.size(), n - 1); Loc D = locate(s, A(0), k + 1, true, "write"); Obj *o = s.mem.wget(D.id);
          for (size_t i = 0; i <= k; i++) wrBits(o, D.off + i, V(i < k ? (uint8_t)out[i] : 0), 8); }
        setR(V(out.size())); break; }
      case X_holds: { Val n = A(1); Val p = A(0);      // n bytes at p belong to one block
        u64 a = concretize(s, p, 64);
        Obj *o = s.mem.get(a >> ABITS); u64 off = a & ((1ull << ABITS) - 1);
        if (!o) fail(s, "uaf", "block is not live memory");
        E size = o->ssize ? o->ssize : mkConst(o->size, 64), end = mkBin(Op::Add, toE(n, 64), mkConst(off, 64));
        require(s, mkBin(Op::Ule, toE(n, 64), size), "oob", "block is smaller than asked for");
        require(s, mkBin(Op::Ule, end, size), "oob", "block is smaller than asked for"); break; }
      case X_mfail: s.mallocFail = concretize(s, A(0), 64); break;
      case X_heaplive: { u64 n = 0; for (u64 i = 1; i < s.mem.next; i++) { Obj *o = s.mem.get(i); if (o && o->kind == KHeap) n++; } setR(V(n)); break; }
      case X_malloc: {
        const Val &v = A(0);
        if (v.e && o_symsize) { Val w = v; setR(V(doMallocSym(s, w))); break; }
        u64 n = concretize(s, v, 64); setR(V(doMalloc(s, n))); break; }
      case X_calloc: {
        u64 n = concretize(s, A(0), 64), k = concretize(s, A(1), 64);
        if (k && n > ~0ull / k) { setR(V(0)); break; }
        u64 p = doMalloc(s, n * k);
        if (p) { Obj *o = s.mem.wget(p >> ABITS); o->sym.clear(); }
        setR(V(p)); break; }
      case X_realloc: {
        u64 p = concretize(s, A(0), 64); Val nv = A(1);
        if (nv.e && o_symsize) {
          u64 id = p >> ABITS; Obj *o = p ? s.mem.get(id) : nullptr;
          if (p && (!o || o->kind != KHeap || (p & ((1ull << ABITS) - 1)))) fail(s, o ? "bad-free" : "uaf", "realloc of released or invalid memory");
          if (!decide(s, mkNot(mkBin(Op::Eq, nv.e, mkConst(0, 64))))) { if (p) s.mem.release(id); setR(V(0)); break; }
          u64 q = doMallocSym(s, nv);
          if (q && p) { u64 k = std::min(o_symsize, o->size); E os = o->ssize; E ns = s.mem.get(q >> ABITS)->ssize;
            { Obj *w = s.mem.wget(id); w->ssize = nullptr; } { Obj *w = s.mem.wget(q >> ABITS); w->ssize = nullptr; }
            copyMem(s, V(q), V(p), k, false); { Obj *w = s.mem.wget(q >> ABITS); w->ssize = ns; } (void)os; s.mem.release(id); }
          setR(V(q)); break;
        }
        u64 n = concretize(s, nv, 64);
        if (!p) { setR(V(doMalloc(s, n))); break; }
        u64 id = p >> ABITS; Obj *o = s.mem.get(id);
        if (!o || o->kind != KHeap || (p & ((1ull << ABITS) - 1))) fail(s, o ? "bad-free" : "uaf", "realloc of released or invalid memory");
        if (!n) { s.mem.release(id); setR(V(0)); break; }
        u64 q = doMalloc(s, n);
        if (q) { copyMem(s, V(q), V(p), std::min(n, o->size), false); s.mem.release(id); }
        setR(V(q)); break; }
      case X_free: doFree(s, A(0)); break;
      case X_memcpy: case X_memmove: { u64 n = sizeArg(s, A(2)); copyMem(s, A(0), A(1), n, I.ext == X_memcpy); setR(A(0)); break; }
      case X_memset: { u64 n = sizeArg(s, A(2)); Val v = A(1); if (v.e) v = fromE(mkExtract(v.e, 0, 8)); else v.c &= 255;
        if (n) { Loc D = locate(s, A(0), n, true, "write"); Obj *o = s.mem.wget(D.id); for (u64 i = 0; i < n; i++) wrBits(o, D.off + i, v, 8); }
        setR(A(0)); break; }
      case X_memcmp: case X_bcmp: {
        u64 n = sizeArg(s, A(2));
        if (!n) { setR(V(0)); break; }
        u64 pa = concretize(s, A(0), 64), pb = concretize(s, A(1), 64);
        Loc P = locate(s, V(pa), n, false, "read"), Q = locate(s, V(pb), n, false, "read");
        E r = mkConst(0, 32);
        for (u64 i = n; i-- > 0;) {
          Val vx = rdByte(P.o, P.off + i), vy = rdByte(Q.o, Q.off + i);
          if (!vx.e && !vy.e) { if (vx.c != vy.c) r = mkConst(vx.c < vy.c ? 0xffffffffu : 1, 32); continue; }
          E x = toE(rdByte(P.o, P.off + i), 8), y = toE(rdByte(Q.o, Q.off + i), 8);
          E lt = mkBin(Op::Ult, x, y), eq = mkBin(Op::Eq, x, y);
          r = mkIte(eq, r, mkIte(lt, mkConst(0xffffffffu, 32), mkConst(1, 32)));
        }
        setR(fromE(r)); break; }
      case X_abort: fail(s, "abort", "abort called");
      case X_assertfail: {
        std::string msg;
        { Val p = A(0); Obj *o = s.mem.get(p.c >> ABITS); u64 off = p.c & ((1ull << ABITS) - 1);
          while (o && off < o->size && o->data[off]) msg += (char)o->data[off++]; }
        fail(s, "assert", "assertion failed: " + msg); }
      case X_exit: f.pc = f.pc; endPath(s); throw PathEnd{};
      case X_fprintf: case X_printf: case X_puts: case X_fputc: case X_putchar: setR(V(0)); break;
      case X_fwrite: setR(A(2)); break;
      default: unsupported(s, "call of external function " + mod->getFunction(fns[fi].name)->getName().str());
    }
    return false;
  }
  if (fi == -2) {
    u64 p = concretize(s, rd(f, I.a.back()), 64);
    Obj *o = (p >> ABITS) ? s.mem.get(p >> ABITS) : nullptr;
    if (!o || o->kind != KFunc || (p & ((1ull << ABITS) - 1))) fail(s, "badcall", "call through an invalid function pointer");
    fi = o->fn;
    if (!fns[fi].hasBody) {
      // indirect call of an external: only allocator functions make sense
      const std::string &n = fns[fi].name;
      Ins J = I; J.fn = fi; J.ext = -2;
      for (int k = 0; externNames[k]; k++) if (n == externNames[k]) J.ext = k;
      J.a.pop_back(); J.as.pop_back(); J.aw.pop_back();
      return call(s, J);
    }
  }
  if (fi < 0) unsupported(s, "call target");
  FnInfo &F = fns[fi];
  if (!F.hasBody) unsupported(s, "call of " + F.name);
  if (!F.decoded) decodeFn(fi);
  if (na < F.args.size()) fail(s, "badcall", "call with too few arguments");
  // gather arguments
  std::vector<Val> av; 
  for (size_t k = 0; k < F.args.size(); k++) {
    if (I.as[k] != F.args[k].second) fail(s, "badcall", "argument shape mismatch in call of " + F.name);
    for (unsigned i = 0; i < I.as[k]; i++) av.push_back(rd(f, slotOf(I.a[k], i)));
  }
  f.pc++;
  pushFrame(s, fi, I.dst, I.slots);
  Frame &g = s.st.back();
  std::copy(av.begin(), av.end(), g.r.begin());
  for (size_t k = 0; k < F.args.size(); k++) if (I.byval[k]) {
    u64 p = s.mem.alloc(I.byval[k], KStack, true);
    s.stackBytes += I.byval[k];
    g.allocas.push_back(p >> ABITS);
    copyMem(s, V(p), g.r[F.args[k].first], I.byval[k], false);
    g.r[F.args[k].first] = V(p);
  }
  return true;
}

static void step(State &s) {
  Frame *fp = &s.st.back();
  const Ins &I = fns[fp->fn].code[fp->pc];
  Frame &f = *fp;
  switch (I.op) {
    case IOp::Bin:
      if (!I.lanes) {
        if (I.w == 1 && (I.bop == Op::And || I.bop == Op::Or)) {
          /* an operand that is not initialised does not matter if the other decides */
          const Val &x = rd(f, I.a[0]), &y = rd(f, I.a[1]);
          bool ux = x.e && x.e->undef, uy = y.e && y.e->undef;
          if (ux != uy) {
            const Val known = ux ? y : x, open = ux ? x : y;
            bool k = known.e ? decide(s, known.e) : known.c & 1;
            f.r[I.dst] = k == (I.bop == Op::Or) ? V(k) : open;
            break;
          }
        }
        Val v = binop(s, I.bop, rd(f, I.a[0]), rd(f, I.a[1]), I.w);
        // a sign or low bit spread over the whole word: settle it
        if (v.e && I.w > 8 && !v.e->undef) {
          E bit = v.e->op == Op::SExt && v.e->a->width == 1 ? v.e->a
            : v.e->op == Op::Sub && isConst(v.e->a) && !v.e->a->val && v.e->b->op == Op::ZExt && v.e->b->a->width == 1 ? v.e->b->a : nullptr;
          if (bit && bit->single >= 0) v = V(decide(s, bit) ? (u64)maskw(I.w > 64 ? 64 : I.w) : 0);
        }
        f.r[I.dst] = v;
      }
      else {
        unsigned lw = I.w / I.nl; E x = toE(rd(f, I.a[0]), I.w), y = toE(rd(f, I.a[1]), I.w), r = nullptr;
        if (I.bop == Op::And || I.bop == Op::Or || I.bop == Op::Xor) r = mkBin(I.bop, x, y);
        else for (unsigned i = 0; i < I.nl; i++) {
          E l = toE(binop(s, I.bop, fromE(lane(x, i, lw)), fromE(lane(y, i, lw)), lw), lw); r = r ? mkConcat(l, r) : l; }
        f.r[I.dst] = fromE(r);
      }
      break;
    case IOp::ICmp:
      if (!I.lanes) f.r[I.dst] = icmp(I.pred, rd(f, I.a[0]), rd(f, I.a[1]), I.sw);
      else {
        unsigned lw = I.sw / I.nl; E x = toE(rd(f, I.a[0]), I.sw), y = toE(rd(f, I.a[1]), I.sw), r = nullptr;
        for (unsigned i = 0; i < I.nl; i++) { E l = toE(icmp(I.pred, fromE(lane(x, i, lw)), fromE(lane(y, i, lw)), lw), 1); r = r ? mkConcat(l, r) : l; }
        f.r[I.dst] = fromE(r);
      }
      break;
    case IOp::Load: {
      Val p = rd(f, I.a[0]);
      if (I.parts.size() == 1) f.r[I.dst] = loadVal(s, p, I.parts[0].second);
      else {
        u64 a = concretize(s, p, 64); locate(s, V(a), I.msize, false, "read");
        for (size_t k = 0; k < I.parts.size(); k++) f.r[I.dst + k] = loadVal(s, V(a + I.parts[k].first), I.parts[k].second);
      }
      break; }
    case IOp::Store: {
      Val p = rd(f, I.a[0]);
      if (I.parts.size() == 1) storeVal(s, p, rd(f, I.a[1]), I.parts[0].second);
      else {
        u64 a = concretize(s, p, 64); locate(s, V(a), I.msize, true, "write");
        for (size_t k = 0; k < I.parts.size(); k++) storeVal(s, V(a + I.parts[k].first), rd(f, slotOf(I.a[1], k)), I.parts[k].second);
      }
      break; }
    case IOp::Gep: {
      Val p = rd(f, I.a[0]);
      u64 off = (u64)I.off; E e = p.e; u64 c = p.c;
      for (auto &g : I.geps) {
        const Val &x = rd(f, g.idx);
        if (!x.e) off += (u64)(sx(x.c, g.w) * g.scale);
        else {
          E t = g.w < 64 ? mkSExt(x.e, 64) : x.e;
          t = mkBin(Op::Mul, t, mkConst((u64)g.scale, 64));
          e = e ? mkBin(Op::Add, e, t) : mkBin(Op::Add, t, mkConst(c, 64));
        }
      }
      if (!e) f.r[I.dst] = V(c + off);
      else f.r[I.dst] = fromE(mkBin(Op::Add, e, mkConst(off, 64)));
      break; }
    case IOp::Alloca: {
      u64 n = concretize(s, rd(f, I.a[0]), I.aw[0]) * I.msize;
      if (n > o_maxobj) fail(s, "stack", "huge stack allocation");
      u64 p = s.mem.alloc(n, KStack, true);
      s.stackBytes += n;
      f.allocas.push_back(p >> ABITS); f.r[I.dst] = V(p);
      break; }
    case IOp::Br: takeEdge(s, f, I.edges[0]); return;
    case IOp::CondBr: {
      const Val &c = rd(f, I.a[0]);
      bool t = c.e ? decide(s, c.e) : c.c != 0;
      takeEdge(s, f, I.edges[t ? 0 : 1]); return; }
    case IOp::Switch: {
      const Val c = rd(f, I.a[0]);
      u64 x = c.e ? (c.e->undef ? (fail(s, "uninit", "switch depends on uninitialised memory"), 0) : (u64)evalExpr(c.e, s.pc.model.v)) : c.c;
      int e = 0;
      for (size_t k = 0; k < I.cases.size(); k++) if (I.cases[k] == x) { e = I.caseEdge[k]; break; }
      if (c.e) {
        E any = mkConst(0, 1);
        if (e == 0) {
          for (size_t k = 0; k < I.cases.size(); k++) if (I.caseEdge[k] != 0) any = mkBin(Op::Or, any, mkBin(Op::Eq, c.e, mkConst(I.cases[k], I.sw)));
          any = mkNot(any);
        } else
          for (size_t k = 0; k < I.cases.size(); k++) if (I.caseEdge[k] == e) any = mkBin(Op::Or, any, mkBin(Op::Eq, c.e, mkConst(I.cases[k], I.sw)));
        decide(s, any);
      }
      takeEdge(s, f, I.edges[e]); return; }
    case IOp::Ret: {
      Val tmp[16]; unsigned n = I.a.empty() ? 0 : I.as[0];
      if (n > 16) unsupported(s, "large aggregate return");
      for (unsigned i = 0; i < n; i++) tmp[i] = rd(f, slotOf(I.a[0], i));
      freeAllocas(s, f, 0);
      int dst = f.retDst; unsigned rs = f.retSlots;
      if (s.st.size() == 1) { endPath(s); throw PathEnd{}; }
      s.st.pop_back();
      if (dst >= 0) for (unsigned i = 0; i < n && i < rs; i++) s.st.back().r[dst + i] = tmp[i];
      return; }
    case IOp::Call: if (call(s, I)) return; break;
    case IOp::Select: {
      const Val &c = rd(f, I.a[0]);
      if (I.lanes) {
        unsigned lw = I.w / I.nl; E cc = toE(c, I.nl), x = toE(rd(f, I.a[1]), I.w), y = toE(rd(f, I.a[2]), I.w), r = nullptr;
        for (unsigned i = 0; i < I.nl; i++) { E l = mkIte(mkExtract(cc, i, 1), lane(x, i, lw), lane(y, i, lw)); r = r ? mkConcat(l, r) : l; }
        f.r[I.dst] = fromE(r);
      } else if (!c.e) {
        int32_t src = c.c ? I.a[1] : I.a[2];
        for (unsigned i = 0; i < I.slots; i++) f.r[I.dst + i] = rd(f, slotOf(src, i));
      } else {
        E cc = c.e;
        int im = cc->undef ? -1 : implied(s.pc, cc);
        if (im >= 0) {
          int32_t src = im ? I.a[1] : I.a[2];
          for (unsigned i = 0; i < I.slots; i++) f.r[I.dst + i] = rd(f, slotOf(src, i));
          break;
        }
        /* an arm that is not initialised taints only the paths on which it is chosen */
        bool any = false;
        for (unsigned i = 0; i < I.slots && !cc->undef; i++) for (int k = 1; k <= 2; k++) { const Val &arm = rd(f, slotOf(I.a[k], i)); if (arm.e && arm.e->undef) any = true; }
        if (any) {
          int32_t src = decide(s, cc) ? I.a[1] : I.a[2];
          for (unsigned i = 0; i < I.slots; i++) f.r[I.dst + i] = rd(f, slotOf(src, i));
          break;
        }
        for (unsigned i = 0; i < I.slots; i++) {
          unsigned w = I.parts[i].second;
          f.r[I.dst + i] = fromE(mkIte(cc, toE(rd(f, slotOf(I.a[1], i)), w), toE(rd(f, slotOf(I.a[2], i)), w)));
        }
      }
      break; }
    case IOp::Cast: {
      const Val v = rd(f, I.a[0]);
      if (I.ck == CastK::Bit) { f.r[I.dst] = v; break; }
      if (I.lanes) {
        unsigned sl = I.sw / I.nl, dl = I.w / I.nl; E x = toE(v, I.sw), r = nullptr;
        for (unsigned i = 0; i < I.nl; i++) {
          E l = lane(x, i, sl);
          l = I.ck == CastK::Trunc ? mkExtract(l, 0, dl) : I.ck == CastK::ZExt ? mkZExt(l, dl) : mkSExt(l, dl);
          r = r ? mkConcat(l, r) : l;
        }
        f.r[I.dst] = fromE(r); break;
      }
      if (!v.e && I.w <= 64 && I.sw <= 64) {
        f.r[I.dst] = V(I.ck == CastK::Trunc ? v.c & msk(I.w) : I.ck == CastK::ZExt ? v.c : (u64)sx(v.c, I.sw) & msk(I.w));
      } else {
        E x = toE(v, I.sw);
        if (I.sw == 1 && !x->undef && !isConst(x)) { int im = implied(s.pc, x); if (im >= 0) x = mkConst(im, 1); }
        f.r[I.dst] = fromE(I.ck == CastK::Trunc ? mkExtract(x, 0, I.w) : I.ck == CastK::ZExt ? mkZExt(x, I.w) : mkSExt(x, I.w));
      }
      break; }
    case IOp::Copy: for (unsigned i = 0; i < I.slots; i++) f.r[I.dst + i] = rd(f, slotOf(I.a[0], i)); break;
    case IOp::Extract: for (unsigned i = 0; i < I.slots; i++) f.r[I.dst + i] = rd(f, slotOf(I.a[0], (unsigned)I.off + i)); break;
    case IOp::Insert:
      for (unsigned i = 0; i < I.slots; i++) f.r[I.dst + i] = rd(f, slotOf(I.a[0], i));
      for (unsigned i = 0; i < I.as[1]; i++) f.r[I.dst + (unsigned)I.off + i] = rd(f, slotOf(I.a[1], i));
      break;
    case IOp::ExtElem: {
      u64 k = concretize(s, rd(f, I.a[1]), I.aw[1]);
      f.r[I.dst] = fromE(lane(toE(rd(f, I.a[0]), I.aw[0]), (unsigned)k, I.w)); break; }
    case IOp::InsElem: {
      u64 k = concretize(s, rd(f, I.a[2]), I.aw[2]); unsigned lw = I.aw[1], n = I.w / lw;
      E x = toE(rd(f, I.a[0]), I.w), r = nullptr;
      for (unsigned i = 0; i < n; i++) { E l = i == k ? toE(rd(f, I.a[1]), lw) : lane(x, i, lw); r = r ? mkConcat(l, r) : l; }
      f.r[I.dst] = fromE(r); break; }
    case IOp::Shuffle: {
      unsigned lw = I.aw[0] / I.nl; E x = toE(rd(f, I.a[0]), I.aw[0]), y = toE(rd(f, I.a[1]), I.aw[1]), r = nullptr;
      for (int m : I.shuf) { E l = m < 0 ? mkUndef(lw) : m < (int)I.nl ? lane(x, m, lw) : lane(y, m - I.nl, lw); r = r ? mkConcat(l, r) : l; }
      f.r[I.dst] = fromE(r); break; }
    case IOp::Unreachable: fail(s, "unreachable", "unreachable code reached");
    case IOp::Bad: unsupported(s, I.bad ? I.bad : "instruction");
  }
  s.st.back().pc++;
}

// Run one state until it ends; forks go to `work`.
static u64 tick_;
struct Handover {};
static std::vector<State *> drop;
static void trySplit();
static void runState(State *s) {
  try {
    for (;;) {
      s->steps++;
      if ((tick_++ & 0xfff) == 0) {
        if (elapsed() > o_timeout) { R.incomplete = "time limit"; break; }
        trySplit();
      }
      if (s->steps > o_maxsteps) fail(*s, "steps", "instruction limit exceeded (possible non-termination)");
      step(*s);
    }
  } catch (PathEnd &) {}
  delete s;
}

// ---------------------------------------------------------------- results
static std::string jstr(const std::string &x) {
  std::string r = "\"";
  for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
static std::string hex(const std::vector<uint8_t> &v) { std::string r; char b[4]; for (uint8_t x : v) { snprintf(b, sizeof b, "%02x", x); r += b; } return r; }

template <class T> static void put(std::string &b, const T &v) { b.append((const char *)&v, sizeof v); }
static void puts_(std::string &b, const std::string &s) { put(b, (u64)s.size()); b += s; }
static void putv(std::string &b, const std::vector<uint8_t> &v) { put(b, (u64)v.size()); b.append((const char *)v.data(), v.size()); }
struct Rd { const std::string &b; size_t p = 0; template <class T> T get() { T v; memcpy(&v, &b[p], sizeof v); p += sizeof v; return v; }
  std::string str() { u64 n = get<u64>(); std::string s = b.substr(p, n); p += n; return s; }
  std::vector<uint8_t> vec() { std::string s = str(); return std::vector<uint8_t>(s.begin(), s.end()); } };

static std::string serialize() {
  std::string b;
  put(b, R.paths); put(b, R.steps); put(b, R.forks); put(b, R.dead); put(b, R.errorCount); put(b, R.sampleSeen); put(b, R.reach); put(b, R.maxsteps); put(b, R.maxsyms);
  puts_(b, R.incomplete);
  put(b, (u64)R.errors.size());
  for (auto &k : R.errors) { puts_(b, k.first); auto &e = k.second; puts_(b, e.kind); puts_(b, e.func); puts_(b, e.msg); put(b, e.line); putv(b, e.in);
    put(b, (u64)e.trace.size()); for (auto &t : e.trace) puts_(b, t); puts_(b, e.smt); }
  put(b, (u64)R.samples.size()); for (auto &x : R.samples) { putv(b, x.in); put(b, x.hash); }
  put(b, (u64)fns.size());
  for (auto &F : fns) { put(b, F.calls); put(b, F.decoded); if (F.decoded) { put(b, (u64)F.covered.size()); b.append((const char *)F.covered.data(), F.covered.size()); } }
  put(b, sstats);
  return b;
}
static void merge(const std::string &b) {
  Rd r{b};
  R.paths += r.get<u64>(); R.steps += r.get<u64>(); R.forks += r.get<u64>(); R.dead += r.get<u64>(); R.errorCount += r.get<u64>(); R.sampleSeen += r.get<u64>(); R.reach |= r.get<u64>();
  R.maxsteps = std::max(R.maxsteps, r.get<u64>()); R.maxsyms = std::max(R.maxsyms, r.get<unsigned>());
  std::string inc = r.str(); if (!inc.empty()) R.incomplete = inc;
  u64 n = r.get<u64>();
  for (u64 i = 0; i < n; i++) {
    std::string k = r.str(); Finding e; e.kind = r.str(); e.func = r.str(); e.msg = r.str(); e.line = r.get<int>(); e.in = r.vec();
    u64 t = r.get<u64>(); while (t--) e.trace.push_back(r.str()); e.smt = r.str();
    auto it = R.errors.find(k); if (it == R.errors.end() || e.in.size() < it->second.in.size()) R.errors[k] = e;
  }
  n = r.get<u64>(); for (u64 i = 0; i < n; i++) { Sample x; x.in = r.vec(); x.hash = r.get<u64>(); R.samples.push_back(x); }
  n = r.get<u64>();
  for (u64 i = 0; i < n; i++) {
    auto &F = fns[i]; F.calls += r.get<u64>(); bool d = r.get<bool>();
    if (d) { u64 m = r.get<u64>(); if (!F.decoded) decodeFn(i); for (u64 k = 0; k < m; k++) F.covered[k] |= b[r.p + k]; r.p += m; }
  }
  SolverStats q = r.get<SolverStats>();
  sstats.z3_queries += q.z3_queries; sstats.z3_sat += q.z3_sat; sstats.z3_unsat += q.z3_unsat; sstats.fast += q.fast; sstats.cache += q.cache;
  sstats.model_hits += q.model_hits; sstats.crosscheck += q.crosscheck; sstats.checks += q.checks; sstats.checks_const += q.checks_const; sstats.z3_time += q.z3_time;
}
static void output() {
  std::string j = "{\n";
  auto num = [&](const char *k, double v) { char b[96]; if (v == (double)(long long)v) snprintf(b, sizeof b, "  \"%s\": %lld,\n", k, (long long)v); else snprintf(b, sizeof b, "  \"%s\": %.3f,\n", k, v); j += b; };
  num("paths", R.paths); num("dead_paths", R.dead); num("steps", R.steps); num("forks", R.forks); num("max_path_steps", R.maxsteps); num("max_symbols", R.maxsyms);
  num("z3_queries", sstats.z3_queries); num("z3_sat", sstats.z3_sat); num("z3_unsat", sstats.z3_unsat); num("z3_time", sstats.z3_time);
  num("byte_domain_decisions", sstats.fast); num("crosschecked", sstats.crosscheck); num("query_cache_hits", sstats.cache); num("model_hits", sstats.model_hits);
  num("checks_symbolic", sstats.checks); num("checks_path_constant", sstats.checks_const); num("wall", elapsed()); num("exprs", exprCount());
  num("error_paths", R.errorCount);
  j += "  \"reach\": ["; bool first = true; for (int i = 0; i < 64; i++) if (R.reach >> i & 1) { if (!first) j += ","; first = false; j += std::to_string(i); } j += "],\n";
  j += "  \"incomplete\": " + jstr(R.incomplete) + ",\n  \"errors\": [";
  first = true;
  for (auto &k : R.errors) { auto &e = k.second; if (!first) j += ","; first = false;
    j += "\n    {\"kind\":" + jstr(e.kind) + ",\"func\":" + jstr(e.func) + ",\"line\":" + std::to_string(e.line) + ",\"msg\":" + jstr(e.msg) + ",\"input\":\"" + hex(e.in) + "\",\"trace\":[";
    for (size_t i = 0; i < e.trace.size(); i++) j += (i ? "," : "") + jstr(e.trace[i]);
    j += "],\"smt\":" + jstr(e.smt) + "}"; }
  j += "],\n  \"samples\": [";
  first = true; for (auto &s : R.samples) { if (!first) j += ","; first = false; char b[32]; snprintf(b, sizeof b, "%016llx", (unsigned long long)s.hash); j += "\n    {\"input\":\"" + hex(s.in) + "\",\"hash\":\"" + b + "\"}"; }
  j += "],\n  \"functions\": [";
  first = true;
  for (auto &F : fns) if (F.calls && F.decoded && !inHarness(F)) { unsigned c = 0; for (auto x : F.covered) c += x; if (!first) j += ","; first = false;
    j += "\n    {\"name\":" + jstr(F.name) + ",\"calls\":" + std::to_string(F.calls) + ",\"blocks\":" + std::to_string(F.covered.size()) + ",\"covered\":" + std::to_string(c) + "}"; }
  j += "]\n}\n";
  FILE *f = o_out.empty() ? stdout : fopen(o_out.c_str(), "w");
  fputs(j.c_str(), f); if (f != stdout) fclose(f);
}

// Exploration is spread over processes: whenever fewer than the wanted number are
// busy, one that has states left forks and hands half of them to the copy.
struct Shared { std::atomic<unsigned> active, spawned; };
static Shared *sh;
static std::string tmpDir;
static double lastSplit;
static void freshResults() { for (auto &F : fns) F.calls = 0; R = Results(); sstats = SolverStats(); }
static void trySplit() {
  if (o_workers <= 1 || work.size() < 2 || sh->active.load() >= o_workers || elapsed() - lastSplit < 0.02) return;
  if (sh->active.fetch_add(1) >= o_workers) { sh->active.fetch_sub(1); return; }
  lastSplit = elapsed();
  size_t half = work.size() / 2;
  pid_t p = fork();
  if (p < 0) { sh->active.fetch_sub(1); return; }
  if (p == 0) {
    rng ^= (sh->spawned.fetch_add(1) + 1) * 0x9e3779b97f4a7c15ull;
    freshResults();
    for (size_t i = half; i < work.size(); i++) drop.push_back(work[i]);
    work.resize(half);
    throw Handover{};
  }
  for (size_t i = 0; i < half; i++) delete work[i];
  work.erase(work.begin(), work.begin() + half);
}
static void drain() {
  while (!work.empty()) {
    State *s = work.back(); work.pop_back();
    try { runState(s); }
    catch (Handover &) { }                       // this is the copy: s stays with the original
    if (R.incomplete == "time limit") break;
    try { trySplit(); } catch (Handover &) { }
  }
}
static void explore(State *init) {
  work.push_back(init);
  if (o_workers <= 1) { drain(); return; }
  sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (sh) Shared(); sh->active = 1;
  char t[] = "/tmp/pbse-XXXXXX"; if (!mkdtemp(t)) { R.incomplete = "no temporary directory"; return; }
  tmpDir = t;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  pid_t p = fork();
  if (p < 0) { R.incomplete = "fork failed"; return; }
  if (!p) {
    freshResults();
    drain();
    std::string b = serialize(), f = tmpDir + "/" + std::to_string(getpid());
    FILE *o = fopen((f + ".t").c_str(), "w");
    if (!o || fwrite(b.data(), 1, b.size(), o) != b.size() || fclose(o) || rename((f + ".t").c_str(), f.c_str())) _exit(5);
    sh->active.fetch_sub(1);
    _exit(0);
  }
  for (;;) {
    int st = 0; pid_t q = wait(&st);
    if (q < 0) { if (errno == EINTR) continue; break; }
    std::string f = tmpDir + "/" + std::to_string(q), b;
    FILE *o = WIFEXITED(st) && !WEXITSTATUS(st) ? fopen(f.c_str(), "r") : nullptr;
    if (!o) { R.incomplete = "a worker process died"; sh->active.fetch_sub(1); continue; }
    char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, o)) > 0) b.append(buf, n);
    fclose(o); unlink(f.c_str());
    merge(b);
  }
  if (R.samples.size() > o_samples) {            // an even choice among all
    for (size_t i = 0; i < o_samples; i++) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; std::swap(R.samples[i], R.samples[i + rng % (R.samples.size() - i)]); }
    R.samples.resize(o_samples);
  }
  rmdir(tmpDir.c_str());
}

int main(int argc, char **argv) {
  T0 = std::chrono::steady_clock::now();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&](const char *k, std::string &out) { std::string p = std::string("--") + k + "="; if (a.compare(0, p.size(), p) == 0) { out = a.substr(p.size()); return true; } return false; };
    std::string v;
    if (val("entry", o_entry)) {} else if (val("out", o_out)) {} else if (val("repo", repoPrefix)) {}
    else if (val("max-steps", v)) o_maxsteps = std::stoull(v);
    else if (val("max-depth", v)) o_maxdepth = std::stoul(v);
    else if (val("workers", v)) o_workers = std::stoul(v);
    else if (val("frontier", v)) o_frontier = std::stoul(v);
    else if (val("samples", v)) o_samples = std::stoul(v);
    else if (val("timeout", v)) o_timeout = std::stod(v);
    else if (val("seed", v)) o_seed = std::stoull(v);
    else if (val("max-obj", v)) o_maxobj = std::stoull(v);
    else if (val("symsize", v)) o_symsize = std::stoull(v);
    else if (a == "--z3only") opt_z3only = true;
    else if (a == "--cross") opt_cross = true;
    else o_bc = a;
  }
  rng ^= o_seed * 0x2545F4914F6CDD1Dull;
  struct rlimit rl = {512ul << 20, 512ul << 20}; setrlimit(RLIMIT_STACK, &rl);
  LLVMContext ctx; SMDiagnostic err;
  mod = parseIRFile(o_bc, err, ctx);
  if (!mod) { err.print("pbse", errs()); return 4; }
  DL = &mod->getDataLayout();
  // constructors run in front of the entry
  if (auto *gc = mod->getNamedGlobal("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<u64, Function *>> cs;
    for (auto &o : ca->operands()) {
      auto *st = cast<ConstantStruct>(o.get());
      if (auto *f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f});
    }
    std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
    if (Function *e = mod->getFunction(o_entry)) {
      auto *m = Function::Create(FunctionType::get(Type::getVoidTy(ctx), false), GlobalValue::ExternalLinkage, "pbse_main", mod.get());
      auto *bb = BasicBlock::Create(ctx, "", m);
      for (auto &c : cs) CallInst::Create(c.second->getFunctionType(), c.second, "", bb);
      CallInst::Create(e->getFunctionType(), e, "", bb);
      ReturnInst::Create(ctx, bb);
      o_entry = "pbse_main";
    }
  }
  State *s = new State;
  for (auto &f : *mod) {
    FnInfo F; F.f = &f; F.name = f.getName().str(); F.hasBody = !f.isDeclaration();
    if (auto *sp = f.getSubprogram()) F.file = sp->getFilename().starts_with("/") ? sp->getFilename().str() : (sp->getDirectory() + "/" + sp->getFilename()).str();
    fnIndex[&f] = fns.size(); fns.push_back(std::move(F));
  }
  for (auto &f : *mod) if (!f.isIntrinsic()) {
    u64 a = s->mem.alloc(0, KFunc, false); gaddr[&f] = a;
    s->mem.wget(a >> ABITS)->fn = fnIndex[&f];
  }
  for (auto &g : mod->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 8;
    gaddr[&g] = s->mem.alloc(sz, g.isConstant() ? KConst : KGlobal, false);
  }
  for (auto &a : mod->aliases()) gaddr[&a] = gaddr[cast<GlobalValue>(a.getAliasee()->stripPointerCasts())];
  for (auto &g : mod->globals()) if (gaddr.count(&g) && g.hasInitializer()) initObj(s->mem.wget(gaddr[&g] >> ABITS), g.getInitializer(), 0);
  Function *e = mod->getFunction(o_entry);
  if (!e) { errs() << "pbse: no entry " << o_entry << "\n"; return 4; }
  pushFrame(*s, fnIndex[e], -1, 0);
  explore(s);
  output();
  fflush(nullptr);
  _exit(R.incomplete.empty() ? (R.errors.empty() ? 0 : 1) : 3);
}
