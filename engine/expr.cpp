#include "expr.h"
#include <deque>

static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  return h * 0xff51afd7ed558ccdull;
}

struct Table {
  std::vector<E> slots;
  size_t n = 0;
  Table() : slots(1 << 16, nullptr) {}
  static uint64_t hash(const Expr &x) {
    uint64_t h = mix((uint64_t)x.op | (uint64_t)x.width << 8 | (uint64_t)x.aux << 24, (uint64_t)x.a);
    h = mix(h, (uint64_t)x.b); h = mix(h, (uint64_t)x.c);
    h = mix(h, (uint64_t)x.val); h = mix(h, (uint64_t)(x.val >> 64));
    return h ^ (h >> 29);
  }
  static bool eq(const Expr &x, const Expr &y) {
    return x.op == y.op && x.width == y.width && x.aux == y.aux && x.a == y.a &&
      x.b == y.b && x.c == y.c && x.val == y.val;
  }
  void grow() {
    std::vector<E> old; old.swap(slots);
    slots.assign(old.size() * 2, nullptr);
    for (E e : old) if (e) {
      size_t i = hash(*e) & (slots.size() - 1);
      while (slots[i]) i = (i + 1) & (slots.size() - 1);
      slots[i] = e;
    }
  }
};
static Table table;
static std::deque<Expr> arena;

static E intern(Expr x) {
  if (table.n * 2 > table.slots.size()) table.grow();
  size_t m = table.slots.size() - 1, i = Table::hash(x) & m;
  while (E e = table.slots[i]) {
    if (Table::eq(*e, x)) return e;
    i = (i + 1) & m;
  }
  x.id = (uint32_t)table.n;
  if (x.op == Op::Sym) {
    x.mask.set(x.aux);
    x.undef = false;
  } else if (x.op == Op::Undef) {
    x.undef = true;
  } else {
    x.undef = false;
    for (E k : {x.a, x.b, x.c}) if (k) { x.mask.add(k->mask); x.undef |= k->undef; }
  }
  unsigned c = x.mask.count();
  x.single = c == 0 ? -1 : c == 1 ? (int16_t)x.mask.first() : -2;
  arena.push_back(x);
  table.slots[i] = &arena.back();
  table.n++;
  return &arena.back();
}

size_t exprCount() { return table.n; }

static Expr raw(Op op, unsigned w) {
  Expr x; memset((void *)&x, 0, sizeof x);
  x.op = op; x.width = (uint16_t)w; return x;
}

E mkConst(u128 v, unsigned w) { Expr x = raw(Op::Const, w); x.val = v & maskw(w); return intern(x); }
E mkSym(unsigned i) { Expr x = raw(Op::Sym, 8); x.aux = i; return intern(x); }
E mkUndef(unsigned w) { Expr x = raw(Op::Undef, w); return intern(x); }

u128 evalOp(Op op, unsigned w, u128 a, unsigned wa, u128 b, unsigned wb, u128 c, uint32_t aux) {
  u128 m = maskw(w);
  switch (op) {
    case Op::Add: return (a + b) & m;
    case Op::Sub: return (a - b) & m;
    case Op::Mul: return (a * b) & m;
    case Op::UDiv: return b ? a / b : m;
    case Op::URem: return b ? a % b : a;
    case Op::SDiv: { __int128 x = sext128(a, wa), y = sext128(b, wb);
      if (!y) return (x < 0 ? (u128)1 : m) & m;
      if (y == -1) return (u128)(-(u128)x) & m;
      return (u128)(x / y) & m; }
    case Op::SRem: { __int128 x = sext128(a, wa), y = sext128(b, wb);
      if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case Op::LShr: return b >= w ? 0 : a >> (unsigned)b;
    case Op::AShr: { __int128 x = sext128(a, wa); unsigned s = b >= w ? w - 1 : (unsigned)b;
      return (u128)(x >> s) & m; }
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return sext128(a, wa) < sext128(b, wb);
    case Op::Sle: return sext128(a, wa) <= sext128(b, wb);
    case Op::Concat: return ((a << wb) | b) & m;
    case Op::Extract: return (a >> aux) & m;
    case Op::ZExt: return a;
    case Op::SExt: return (u128)sext128(a, wa) & m;
    case Op::Ite: return a ? b : c;
    default: assert(0); return 0;
  }
}

static E build(Op op, unsigned w, E a, E b = nullptr, E c = nullptr, uint32_t aux = 0) {
  bool k = a->op == Op::Const && (!b || b->op == Op::Const) && (!c || c->op == Op::Const);
  if (k) return mkConst(evalOp(op, w, a->val, a->width, b ? b->val : 0, b ? b->width : 0, c ? c->val : 0, aux), w);
  Expr x = raw(op, w); x.a = a; x.b = b; x.c = c; x.aux = aux;
  return intern(x);
}

static bool commut(Op op) {
  return op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq;
}

E mkNot(E a) { return mkBin(Op::Xor, a, mkConst(1, 1)); }

E mkExtract(E a, unsigned lo, unsigned w) {
  assert(lo + w <= a->width && w);
  if (lo == 0 && w == a->width) return a;
  switch (a->op) {
    case Op::Undef: return mkUndef(w);
    case Op::Extract: return mkExtract(a->a, lo + a->aux, w);
    case Op::Concat: {
      unsigned wl = a->b->width;
      if (lo + w <= wl) return mkExtract(a->b, lo, w);
      if (lo >= wl) return mkExtract(a->a, lo - wl, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - wl), mkExtract(a->b, lo, wl - lo));
    }
    case Op::ZExt: {
      unsigned wi = a->a->width;
      if (lo >= wi) return mkConst(0, w);
      if (lo + w <= wi) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, wi - lo), w);
    }
    case Op::SExt: {
      unsigned wi = a->a->width;
      if (lo + w <= wi) return mkExtract(a->a, lo, w);
      return mkSExt(lo >= wi ? mkExtract(a->a, wi - 1, 1) : mkExtract(a->a, lo, wi - lo), w);
    }
    case Op::And: case Op::Or: case Op::Xor:
      return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case Op::Add: case Op::Sub: case Op::Mul:
      if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    case Op::Ite:
      if (isConst(a->b) || isConst(a->c))
        return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
      break;
    default: break;
  }
  return build(Op::Extract, w, a, nullptr, nullptr, lo);
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->width + lo->width;
  assert(w <= 128);
  if (hi->op == Op::Undef && lo->op == Op::Undef) return mkUndef(w);
  if (hi->op == Op::Const && hi->val == 0) return mkZExt(lo, w);
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && hi->aux == lo->aux + lo->width)
    return mkExtract(lo->a, lo->aux, w);
  if (hi->op == Op::Extract && hi->a == lo && hi->aux == lo->width) assert(0);
  // (x . (y . z)) where x,y adjacent extracts
  if (lo->op == Op::Concat && hi->op == Op::Extract && lo->a->op == Op::Extract &&
      hi->a == lo->a->a && hi->aux == lo->a->aux + lo->a->width)
    return mkConcat(mkExtract(hi->a, lo->a->aux, hi->width + lo->a->width), lo->b);
  if (hi->op == Op::ZExt)
    return mkZExt(mkConcat(hi->a, lo), w);
  return build(Op::Concat, w, hi, lo);
}

E mkZExt(E a, unsigned w) {
  if (a->width == w) return a;
  assert(w > a->width);
  if (a->op == Op::ZExt) return mkZExt(a->a, w);
  if (a->op == Op::Undef) return mkUndef(w);
  return build(Op::ZExt, w, a);
}

E mkSExt(E a, unsigned w) {
  if (a->width == w) return a;
  assert(w > a->width);
  if (a->op == Op::ZExt) return mkZExt(a->a, w);
  if (a->op == Op::SExt) return mkSExt(a->a, w);
  if (a->op == Op::Undef) return mkUndef(w);
  return build(Op::SExt, w, a);
}

E mkIte(E c, E t, E f) {
  assert(c->width == 1 && t->width == f->width);
  if (isConst(c)) return c->val ? t : f;
  if (t == f) return t;
  if (c->op == Op::Xor && isConst(c->b) && c->b->val == 1) return mkIte(c->a, f, t);
  if (t->width == 1) {
    if (isConst(t) && isConst(f)) return t->val ? c : mkNot(c);
    if (isConst(t)) return t->val ? mkBin(Op::Or, c, f) : mkBin(Op::And, mkNot(c), f);
    if (isConst(f)) return f->val ? mkBin(Op::Or, mkNot(c), t) : mkBin(Op::And, c, t);
  }
  if (f->op == Op::Ite && f->a == c) return mkIte(c, t, f->c);
  if (t->op == Op::Ite && t->a == c) return mkIte(c, t->b, f);
  if (f->op == Op::Ite && f->b == t) return mkIte(mkBin(Op::Or, c, f->a), t, f->c);
  return build(Op::Ite, t->width, c, t, f);
}

// Number of low bits of x that may be non-zero.
static unsigned activeBits(E x) {
  switch (x->op) {
    case Op::ZExt: return activeBits(x->a);
    case Op::Const: { unsigned n = 0; u128 v = x->val; while (v) { n++; v >>= 1; } return n; }
    case Op::And: { unsigned p = activeBits(x->a), q = activeBits(x->b); return p < q ? p : q; }
    case Op::Or: case Op::Xor: { unsigned p = activeBits(x->a), q = activeBits(x->b); return p > q ? p : q; }
    default: return x->width;
  }
}
// Number of low bits of x that are surely zero.
static unsigned lowZero(E x) {
  switch (x->op) {
    case Op::Const: { if (!x->val) return x->width; unsigned n = 0; u128 v = x->val; while (!(v & 1)) { n++; v >>= 1; } return n; }
    case Op::Concat: { unsigned n = lowZero(x->b); return n == x->b->width ? n + lowZero(x->a) : n; }
    case Op::ZExt: { unsigned n = lowZero(x->a); return n == x->a->width ? x->width : n; }
    default: return 0;
  }
}

E mkBin(Op op, E a, E b) {
  assert(a->width == b->width);
  unsigned w = a->width;
  bool cmp = op == Op::Eq || op == Op::Ult || op == Op::Ule || op == Op::Slt || op == Op::Sle;
  unsigned rw = cmp ? 1 : w;
  if (isConst(a) && isConst(b)) return build(op, rw, a, b);
  if (commut(op) && isConst(a)) std::swap(a, b);
  else if (commut(op) && !isConst(b) && a->id > b->id) std::swap(a, b);
  u128 m = maskw(w);
  switch (op) {
    case Op::Add:
      if (isConst(b)) {
        if (!b->val) return a;
        if (a->op == Op::Add && isConst(a->b)) return mkBin(Op::Add, a->a, mkConst(a->b->val + b->val, w));
      } else {
        if (a->op == Op::Add && isConst(a->b)) return mkBin(Op::Add, mkBin(Op::Add, a->a, b), a->b);
        if (b->op == Op::Add && isConst(b->b)) return mkBin(Op::Add, mkBin(Op::Add, a, b->a), b->b);
      }
      break;
    case Op::Sub:
      if (a == b) return mkConst(0, w);
      if (isConst(b)) return mkBin(Op::Add, a, mkConst((u128)0 - b->val, w));
      if (a->op == Op::Add && a->a == b) return a->b;
      if (a->op == Op::Add && a->b == b) return a->a;
      if (a->op == Op::Add && isConst(a->b) ) return mkBin(Op::Add, mkBin(Op::Sub, a->a, b), a->b);
      if (b->op == Op::Add && isConst(b->b) ) return mkBin(Op::Add, mkBin(Op::Sub, a, b->a), mkConst((u128)0 - b->b->val, w));
      break;
    case Op::Mul:
      if (isConst(b)) {
        if (!b->val) return b;
        if (b->val == 1) return a;
        if (!(b->val & (b->val - 1))) { unsigned s = 0; while (!((b->val >> s) & 1)) s++; return mkBin(Op::Shl, a, mkConst(s, w)); }
      }
      break;
    case Op::UDiv: if (isConst(b) && b->val == 1) return a; 
      if (isConst(b) && b->val && !(b->val & (b->val - 1))) { unsigned s = 0; while (!((b->val >> s) & 1)) s++; return mkBin(Op::LShr, a, mkConst(s, w)); }
      break;
    case Op::URem:
      if (isConst(b) && b->val && !(b->val & (b->val - 1))) return mkBin(Op::And, a, mkConst(b->val - 1, w));
      break;
    case Op::And:
      if (a == b) return a;
      if (isConst(b)) {
        if (!b->val) return b;
        if (b->val == m) return a;
        if (a->op == Op::And && isConst(a->b)) return mkBin(Op::And, a->a, mkConst(a->b->val & b->val, w));
        if (a->op == Op::ZExt) {
          unsigned wi = a->a->width;
          return mkZExt(mkBin(Op::And, a->a, mkConst(b->val & maskw(wi), wi)), w);
        }
        if (a->op == Op::Concat) {
          unsigned wl = a->b->width, wh = a->a->width;
          return mkConcat(mkBin(Op::And, a->a, mkConst(b->val >> wl, wh)), mkBin(Op::And, a->b, mkConst(b->val & maskw(wl), wl)));
        }
        // low mask
        if (((b->val + 1) & b->val) == 0) {
          unsigned k = 0; while ((b->val >> k) & 1) k++;
          if (k < w) return mkZExt(mkExtract(a, 0, k), w);
        }
      }
      if (w == 1) { if (a == mkNot(b)) return mkConst(0, 1); }
      break;
    case Op::Or:
      if (a == b) return a;
      if (isConst(b)) {
        if (!b->val) return a; if (b->val == m) return b;
        if (a->op == Op::Or && isConst(a->b)) return mkBin(Op::Or, a->a, mkConst(a->b->val | b->val, w));
        if (a->op == Op::Concat) {
          unsigned wl = a->b->width, wh = a->a->width;
          return mkConcat(mkBin(Op::Or, a->a, mkConst(b->val >> wl, wh)), mkBin(Op::Or, a->b, mkConst(b->val & maskw(wl), wl)));
        }
        if (a->op == Op::ZExt && !(b->val >> a->a->width))
          return mkZExt(mkBin(Op::Or, a->a, mkConst(b->val, a->a->width)), w);
      }
      if (w == 1) { if (!isConst(a) && !isConst(b) && a == mkNot(b)) return mkConst(1, 1); }
      else {
        // disjoint parts: (x << k) | zext(y) ==> concat
        for (int t = 0; t < 2; t++) {
          E hi = t ? b : a, lo = t ? a : b;
          unsigned lz = lowZero(hi), ab = activeBits(lo);
          if (lz && lz < w && ab <= lz && !isConst(hi)) {
            return mkConcat(mkExtract(hi, lz, w - lz), mkExtract(lo, 0, lz));
          }
        }
      }
      break;
    case Op::Xor:
      if (a == b) return mkConst(0, w);
      if (isConst(b)) {
        if (!b->val) return a;
        if (a->op == Op::Xor && isConst(a->b)) return mkBin(Op::Xor, a->a, mkConst(a->b->val ^ b->val, w));
        if (a->op == Op::Concat) {
          unsigned wl = a->b->width, wh = a->a->width;
          return mkConcat(mkBin(Op::Xor, a->a, mkConst(b->val >> wl, wh)), mkBin(Op::Xor, a->b, mkConst(b->val & maskw(wl), wl)));
        }
        if (a->op == Op::ZExt && !(b->val >> a->a->width))
          return mkZExt(mkBin(Op::Xor, a->a, mkConst(b->val, a->a->width)), w);
        if (w == 1) {           // logical not
          if (a->op == Op::Ult) return mkBin(Op::Ule, a->b, a->a);
          if (a->op == Op::Ule) return mkBin(Op::Ult, a->b, a->a);
        }
      }
      break;
    case Op::Shl:
      if (isConst(b)) {
        if (!b->val) return a;
        if (b->val >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->val;
        return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
      }
      if (isConst(a) && !a->val) return a;
      break;
    case Op::LShr:
      if (isConst(b)) {
        if (!b->val) return a;
        if (b->val >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->val;
        return mkZExt(mkExtract(a, s, w - s), w);
      }
      if (isConst(a) && !a->val) return a;
      break;
    case Op::AShr:
      if (isConst(b)) {
        if (!b->val) return a;
        unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
        return mkSExt(mkExtract(a, s, w - s), w);
      }
      break;
    case Op::Eq:
      if (a == b) return mkConst(1, 1);
      if (isConst(b)) {
        if (w == 1) return b->val ? a : mkNot(a);
        if (a->op == Op::ZExt) {
          unsigned wi = a->a->width;
          if (b->val >> wi) return mkConst(0, 1);
          return mkBin(Op::Eq, a->a, mkConst(b->val, wi));
        }
        if (a->op == Op::SExt) {
          unsigned wi = a->a->width;
          u128 lowv = b->val & maskw(wi);
          if (((u128)sext128(lowv, wi) & m) != b->val) return mkConst(0, 1);
          return mkBin(Op::Eq, a->a, mkConst(lowv, wi));
        }
        if (a->op == Op::Concat) {
          unsigned wl = a->b->width, wh = a->a->width;
          return mkBin(Op::And, mkBin(Op::Eq, a->a, mkConst(b->val >> wl, wh)),
                       mkBin(Op::Eq, a->b, mkConst(b->val & maskw(wl), wl)));
        }
        if (a->op == Op::Add && isConst(a->b)) return mkBin(Op::Eq, a->a, mkConst(b->val - a->b->val, w));
        if (a->op == Op::Xor && isConst(a->b)) return mkBin(Op::Eq, a->a, mkConst(b->val ^ a->b->val, w));
        if (a->op == Op::Mul && isConst(a->b) && a->b->val && w <= 64) {   // x * (odd << z) == k: divide modulo 2^(w - z)
          unsigned z = 0; u128 odd = a->b->val; while (!(odd & 1)) { odd >>= 1; z++; }
          if (b->val & maskw(z)) return mkConst(0, 1);
          u128 inv = odd; for (int i = 0; i < 6; i++) inv *= 2 - odd * inv;
          return mkBin(Op::Eq, mkExtract(a->a, 0, w - z), mkConst(((b->val >> z) * inv) & maskw(w - z), w - z));
        }
        if (a->op == Op::Ite) {
          if (isConst(a->b) || isConst(a->c))
            return mkIte(a->a, mkBin(Op::Eq, a->b, b), mkBin(Op::Eq, a->c, b));
        }
      } else {
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->width == b->a->width)
          return mkBin(Op::Eq, a->a, b->a);
        if (a->op == Op::Concat && b->op == Op::Concat && a->b->width == b->b->width)
          return mkBin(Op::And, mkBin(Op::Eq, a->a, b->a), mkBin(Op::Eq, a->b, b->b));
        if (a->op == Op::Add && b->op == Op::Add && isConst(a->b) && isConst(b->b) && a->a == b->a)
          return mkConst(a->b->val == b->b->val, 1);
        if ((a->op == Op::Add && isConst(a->b) && a->a == b) || (b->op == Op::Add && isConst(b->b) && b->a == a))
          return mkConst(0, 1);
        if (w == 1) return mkNot(mkBin(Op::Xor, a, b));
      }
      break;
    case Op::Ult:
      if (a == b) return mkConst(0, 1);
      if (isConst(b)) {
        if (!b->val) return mkConst(0, 1);
        if (b->val == 1) return mkBin(Op::Eq, a, mkConst(0, w));
        if (a->op == Op::ZExt) {
          unsigned wi = a->a->width;
          if (b->val >> wi) return mkConst(1, 1);
          return mkBin(Op::Ult, a->a, mkConst(b->val, wi));
        }
        // below a power of two: the high bits are zero
        if (!(b->val & (b->val - 1)) && a->op != Op::Sym) {
          unsigned k = 0; while (!((b->val >> k) & 1)) k++;
          return mkBin(Op::Eq, mkExtract(a, k, w - k), mkConst(0, w - k));
        }
      }
      if (isConst(a)) {
        if (a->val == m) return mkConst(0, 1);
        if (!a->val) return mkNot(mkBin(Op::Eq, b, mkConst(0, w)));
        if (b->op == Op::ZExt) {
          unsigned wi = b->a->width;
          if (a->val >> wi) return mkConst(0, 1);
          return mkBin(Op::Ult, mkConst(a->val, wi), b->a);
        }
        if (!(a->val & (a->val + 1)) && b->op != Op::Sym)
          return mkNot(mkBin(Op::Ult, b, mkConst(a->val + 1, w)));
      }
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->width == b->a->width)
        return mkBin(Op::Ult, a->a, b->a);
      break;
    case Op::Ule:
      if (a == b) return mkConst(1, 1);
      if (isConst(b)) {
        if (b->val == m) return mkConst(1, 1);
        return mkBin(Op::Ult, a, mkConst(b->val + 1, w));
      }
      if (isConst(a)) {
        if (!a->val) return mkConst(1, 1);
        return mkBin(Op::Ult, mkConst(a->val - 1, w), b);
      }
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->width == b->a->width)
        return mkBin(Op::Ule, a->a, b->a);
      break;
    case Op::Slt:
      if (a == b) return mkConst(0, 1);
      if (a->op == Op::ZExt && b->op == Op::ZExt) return mkBin(Op::Ult, a, b);
      if (a->op == Op::ZExt && isConst(b)) {
        if (sext128(b->val, w) <= 0) return mkConst(0, 1);
        return mkBin(Op::Ult, a, b);
      }
      if (isConst(a) && b->op == Op::ZExt) {
        if (sext128(a->val, w) < 0) return mkConst(1, 1);
        return mkBin(Op::Ult, a, b);
      }
      break;
    case Op::Sle:
      if (a == b) return mkConst(1, 1);
      return mkNot(mkBin(Op::Slt, b, a));
    default: break;
  }
  return build(op, rw, a, b);
}

struct EvalMemo {
  std::vector<uint32_t> stamp;
  std::vector<u128> val;
  uint32_t cur = 0;
};
static EvalMemo memo;

static u128 ev(E e, const uint8_t *model) {
  switch (e->op) {
    case Op::Const: return e->val;
    case Op::Sym: return model[e->aux];
    case Op::Undef: return 0;
    default: break;
  }
  if (memo.stamp[e->id] == memo.cur) return memo.val[e->id];
  u128 r;
  if (e->op == Op::Ite) r = ev(e->a, model) ? ev(e->b, model) : ev(e->c, model);
  else r = evalOp(e->op, e->width, ev(e->a, model), e->a->width,
      e->b ? ev(e->b, model) : 0, e->b ? e->b->width : 0, 0, e->aux);
  memo.stamp[e->id] = memo.cur;
  memo.val[e->id] = r;
  return r;
}

u128 evalExpr(E e, const uint8_t *model) {
  if (isConst(e)) return e->val;
  if (memo.stamp.size() < table.n) { memo.stamp.resize(table.n * 2, 0); memo.val.resize(table.n * 2); }
  if (++memo.cur == 0) { std::fill(memo.stamp.begin(), memo.stamp.end(), 0); memo.cur = 1; }
  return ev(e, model);
}

static const char *opn[] = {"const","sym","undef","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite"};
std::string exprStr(E e, int d) {
  if (e->op == Op::Const) { char b[64]; snprintf(b, sizeof b, "%llu:%u", (unsigned long long)e->val, e->width); return b; }
  if (e->op == Op::Sym) return "s" + std::to_string(e->aux);
  if (d == 0) return "...";
  std::string r = "("; r += opn[(int)e->op];
  if (e->op == Op::Extract) r += "[" + std::to_string(e->aux) + "+" + std::to_string(e->width) + "]";
  for (E k : {e->a, e->b, e->c}) if (k) r += " " + exprStr(k, d - 1);
  return r + ")";
}
