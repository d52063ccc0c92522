// Hash-consed bit-vector expressions over symbolic input bytes.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <string>
#include <cassert>

typedef unsigned __int128 u128;

enum class Op : uint8_t {
  Const, Sym, Undef,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle,
  Concat, Extract, ZExt, SExt, Ite
};

// Set of symbolic input bytes an expression depends on.
static const unsigned MAXSYM = 256;
struct Mask {
  uint64_t w[4] = {0, 0, 0, 0};
  bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
  void set(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
  bool has(unsigned i) const { return (w[i >> 6] >> (i & 63)) & 1; }
  bool meets(const Mask &o) const {
    return (w[0] & o.w[0]) | (w[1] & o.w[1]) | (w[2] & o.w[2]) | (w[3] & o.w[3]);
  }
  void add(const Mask &o) { for (int i = 0; i < 4; i++) w[i] |= o.w[i]; }
  unsigned count() const {
    unsigned n = 0;
    for (int i = 0; i < 4; i++) n += __builtin_popcountll(w[i]);
    return n;
  }
  int first() const {
    for (int i = 0; i < 4; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]);
    return -1;
  }
};

struct Expr {
  Op op;
  bool undef;                 // depends on uninitialised memory
  uint16_t width;
  uint32_t aux;               // Sym: index, Extract: low bit
  uint32_t id;
  int16_t single;             // the only symbol, -1 none, -2 several
  const Expr *a, *b, *c;
  u128 val;
  Mask mask;
};
typedef const Expr *E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline __int128 sext128(u128 v, unsigned w) {
  if (w >= 128) return (__int128)v;
  u128 s = (u128)1 << (w - 1);
  v &= maskw(w);
  return (__int128)((v ^ s) - s);
}

u128 evalOp(Op op, unsigned w, u128 a, unsigned wa, u128 b, unsigned wb, u128 c, uint32_t aux);

E mkConst(u128 v, unsigned w);
E mkSym(unsigned idx);
E mkUndef(unsigned w);
E mkBin(Op op, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E t, E f);
E mkNot(E a);                 // width 1

inline bool isConst(E e) { return e->op == Op::Const; }
size_t exprCount();
std::string exprStr(E e, int depth = 6);

// Evaluate under an assignment of symbols.
u128 evalExpr(E e, const uint8_t *model);
