#include "solver.h"
#include <z3++.h>
#include <unordered_map>
#include <algorithm>
#include <chrono>
#include <map>

SolverStats sstats;
bool opt_z3only = false, opt_cross = false;
unsigned opt_z3rlimit = 200000000;   // a resource, not a time limit: no threads, so that fork() is safe

struct Z {
  z3::context ctx;
  z3::solver s;
  std::unordered_map<E, z3::expr> memo;
  Z() : s(ctx, "QF_BV") {
    z3::params p(ctx); p.set("rlimit", opt_z3rlimit); s.set(p);
  }
};
static Z *zz = nullptr;
static Z &Zc() { if (!zz) zz = new Z; return *zz; }

struct CacheEnt { bool sat; std::vector<std::pair<uint8_t, uint8_t>> m; };
static std::unordered_map<std::string, CacheEnt> qcache;
static std::unordered_map<E, Dom> domcache;

void solverReset() { zz = nullptr; }   // leaks the parent's context on purpose

static z3::expr tr(E e);
static z3::expr b2bv(const z3::expr &b) {
  auto &c = Zc().ctx; return z3::ite(b, c.bv_val(1, 1), c.bv_val(0, 1));
}
static z3::expr zconst(u128 v, unsigned w) {
  auto &c = Zc().ctx;
  if (w <= 64) return c.bv_val((uint64_t)v, w);
  return z3::concat(c.bv_val((uint64_t)(v >> 64), w - 64), c.bv_val((uint64_t)v, 64));
}
static z3::expr trBool(E e) { return tr(e) == Zc().ctx.bv_val(1, 1); }

static z3::expr tr0(E e) {
  auto &c = Zc().ctx;
  switch (e->op) {
    case Op::Const: return zconst(e->val, e->width);
    case Op::Sym: return c.bv_const(("s" + std::to_string(e->aux)).c_str(), 8);
    case Op::Undef: return zconst(0, e->width);
    case Op::Add: return tr(e->a) + tr(e->b);
    case Op::Sub: return tr(e->a) - tr(e->b);
    case Op::Mul: return tr(e->a) * tr(e->b);
    case Op::UDiv: return z3::udiv(tr(e->a), tr(e->b));
    case Op::SDiv: return tr(e->a) / tr(e->b);
    case Op::URem: return z3::urem(tr(e->a), tr(e->b));
    case Op::SRem: return z3::srem(tr(e->a), tr(e->b));
    case Op::And: return tr(e->a) & tr(e->b);
    case Op::Or: return tr(e->a) | tr(e->b);
    case Op::Xor: return tr(e->a) ^ tr(e->b);
    case Op::Shl: return z3::shl(tr(e->a), tr(e->b));
    case Op::LShr: return z3::lshr(tr(e->a), tr(e->b));
    case Op::AShr: return z3::ashr(tr(e->a), tr(e->b));
    case Op::Eq: return b2bv(tr(e->a) == tr(e->b));
    case Op::Ult: return b2bv(z3::ult(tr(e->a), tr(e->b)));
    case Op::Ule: return b2bv(z3::ule(tr(e->a), tr(e->b)));
    case Op::Slt: return b2bv(z3::slt(tr(e->a), tr(e->b)));
    case Op::Sle: return b2bv(z3::sle(tr(e->a), tr(e->b)));
    case Op::Concat: return z3::concat(tr(e->a), tr(e->b));
    case Op::Extract: return tr(e->a).extract(e->aux + e->width - 1, e->aux);
    case Op::ZExt: return z3::zext(tr(e->a), e->width - e->a->width);
    case Op::SExt: return z3::sext(tr(e->a), e->width - e->a->width);
    case Op::Ite: return z3::ite(trBool(e->a), tr(e->b), tr(e->c));
  }
  abort();
}
static z3::expr tr(E e) {
  auto &m = Zc().memo;
  auto it = m.find(e);
  if (it != m.end()) return it->second;
  z3::expr r = tr0(e);
  m.emplace(e, r);
  return r;
}

static const Dom &domOf(E cond) {
  auto it = domcache.find(cond);
  if (it != domcache.end()) return it->second;
  Dom d; d.w[0] = d.w[1] = d.w[2] = d.w[3] = 0;
  uint8_t m[MAXSYM]; memset(m, 0, sizeof m);
  unsigned s = (unsigned)cond->single;
  for (unsigned v = 0; v < 256; v++) {
    m[s] = (uint8_t)v;
    if (evalExpr(cond, m)) d.w[v >> 6] |= 1ull << (v & 63);
  }
  return domcache.emplace(cond, d).first->second;
}

static Dom domAt(const PathCond &pc, unsigned s) { return s < pc.dom.size() ? pc.dom[s] : Dom(); }

static void slice(const PathCond &pc, E cond, std::vector<E> &out, Mask &syms) {
  syms = cond->mask;
  std::vector<char> used(pc.cons.size(), 0);
  bool again = true;
  while (again) {
    again = false;
    for (size_t i = 0; i < pc.cons.size(); i++)
      if (!used[i] && pc.cons[i]->mask.meets(syms)) {
        used[i] = 1; out.push_back(pc.cons[i]);
        Mask before = syms; syms.add(pc.cons[i]->mask);
        if (memcmp(&before, &syms, sizeof syms)) again = true;
      }
  }
}

static bool z3check(const PathCond &pc, E cond, Model &out) {
  std::vector<E> cs; Mask syms;
  slice(pc, cond, cs, syms);
  std::vector<uint32_t> ids;
  for (E e : cs) ids.push_back(e->id);
  std::sort(ids.begin(), ids.end());
  ids.push_back(cond->id);
  std::string key((const char *)ids.data(), ids.size() * 4);
  auto it = qcache.find(key);
  if (it != qcache.end()) {
    sstats.cache++;
    if (it->second.sat) { out = pc.model; for (auto &p : it->second.m) out.v[p.first] = p.second; }
    return it->second.sat;
  }
  auto t0 = std::chrono::steady_clock::now();
  Z &z = Zc();
  z.s.push();
  for (E e : cs) z.s.add(trBool(e));
  z.s.add(trBool(cond));
  z3::check_result r = z.s.check();
  CacheEnt ent;
  if (r == z3::unknown) {
    std::string why = z.s.reason_unknown();
    z.s.pop();
    throw SolverUnknown{why};
  }
  ent.sat = r == z3::sat;
  if (ent.sat) {
    z3::model m = z.s.get_model();
    for (unsigned i = 0; i < MAXSYM; i++) if (syms.has(i)) {
      z3::expr v = m.eval(tr(mkSym(i)), true);
      ent.m.push_back({(uint8_t)i, (uint8_t)v.get_numeral_uint64()});
    }
  }
  z.s.pop();
  if (getenv("PBSE_PROF")) { double d = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); fprintf(stderr, "Q %.4f %d cons=%zu %s\n", d, (int)ent.sat, cs.size(), exprStr(cond, 8).c_str()); }
  sstats.z3_queries++;
  if (ent.sat) sstats.z3_sat++; else sstats.z3_unsat++;
  sstats.z3_time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (ent.sat) { out = pc.model; for (auto &p : ent.m) out.v[p.first] = p.second;
    if (!evalExpr(cond, out.v)) { fprintf(stderr, "engine: model does not satisfy query %s\n", exprStr(cond).c_str()); abort(); }
    for (E e : cs) if (!evalExpr(e, out.v)) { fprintf(stderr, "engine: model does not satisfy constraint %s\n", exprStr(e).c_str()); abort(); }
  }
  if (qcache.size() > 400000) qcache.clear();
  qcache.emplace(std::move(key), std::move(ent));
  return r == z3::sat;
}

// Conditions built from And/Or/Not over conditions on single symbols are often
// decided by the per-symbol domains alone. `d` is narrowed by conjunctions.
enum Tri { No, Yes, Unk };
// `choice`: the domains were narrowed further than the conditions demand, by
// settling for one part of a disjunction.
struct Work { std::vector<std::pair<unsigned, Dom>> set; bool choice = false; };
static Dom workDom(const PathCond &pc, const Work &w, unsigned s) {
  for (auto &p : w.set) if (p.first == s) return p.second;
  return domAt(pc, s);
}
static bool isNot(E e) { return e->op == Op::Xor && e->width == 1 && isConst(e->b) && e->b->val == 1; }
// Is e (negated if neg) satisfiable together with the domains? Yes means: by
// choosing the symbols in w from their narrowed domains (free symbols only).
static Tri quick(const PathCond &pc, E e, bool neg, Work &w, unsigned depth) {
  if (isConst(e)) return (e->val != 0) != neg ? Yes : No;
  if (e->single >= 0) {
    unsigned s = (unsigned)e->single;
    Dom d = neg ? ~domOf(e) : domOf(e), x = workDom(pc, w, s), y = d & x;
    if (y.empty()) return No;
    bool whole = y.count() == x.count();
    bool found = false;
    for (auto &p : w.set) if (p.first == s) { p.second = y; found = true; }
    if (!found) w.set.push_back({s, y});
    return whole || !pc.multi.has(s) ? Yes : Unk;
  }
  if (e->width != 1 || !depth) return Unk;
  if (isNot(e)) return quick(pc, e->a, !neg, w, depth - 1);
  bool conj = e->op == Op::And, disj = e->op == Op::Or;
  if (!conj && !disj) return Unk;
  if (conj != neg) {                              // conjunction
    bool before = w.choice; w.choice = false;
    Tri p = quick(pc, e->a, neg, w, depth - 1);
    if (p == No) { w.choice |= before; return No; }
    bool chosen = w.choice;
    Tri q = quick(pc, e->b, neg, w, depth - 1);
    w.choice |= before | chosen;
    return q == No ? chosen ? Unk : No : p == Yes && q == Yes ? Yes : Unk;
  }
  Work w1 = w; Tri p = quick(pc, e->a, neg, w1, depth - 1);
  if (p == Yes) { w = w1; w.choice = true; return Yes; }
  Work w2 = w; Tri q = quick(pc, e->b, neg, w2, depth - 1);
  if (q == Yes) { w = w2; if (p != No) w.choice = true; return Yes; }
  if (p == No && q == No) return No;
  if (p == No) w = w2; else if (q == No) w = w1;
  return Unk;
}

bool feasible(const PathCond &pc, E cond, Model &out, bool forceZ3) {
  if (isConst(cond)) { if (cond->val) out = pc.model; return cond->val != 0; }
  if (!forceZ3 && !opt_z3only && evalExpr(cond, pc.model.v)) { out = pc.model; sstats.model_hits++; return true; }
  if (!opt_z3only && !forceZ3 && cond->width == 1) {
    Work w;
    Tri t = quick(pc, cond, false, w, 80);
    if (t == No) {
      sstats.fast++;
      static unsigned every; // a part of these answers is always checked, all of them in the thorough tier
      if (opt_cross || every++ % 64 == 0) { Model t; sstats.crosscheck++; if (z3check(pc, cond, t)) { fprintf(stderr, "engine: cross-check mismatch\n"); abort(); } }
      return false;
    }
    if (t == Yes) {
      // a symbol in a multi-symbol constraint keeps its value if that is allowed
      bool ok = true;
      Model m = pc.model;
      for (auto &p : w.set) {
        if (p.second.has(m.v[p.first])) continue;
        if (pc.multi.has(p.first)) { ok = false; break; }
        m.v[p.first] = (uint8_t)p.second.first();
      }
      if (ok && evalExpr(cond, m.v)) {
        sstats.fast++; out = m;
        if (opt_cross) { Model t; sstats.crosscheck++; if (!z3check(pc, cond, t)) { fprintf(stderr, "engine: cross-check mismatch\n"); abort(); } }
        return true;
      }
    }
  }
  return z3check(pc, cond, out);
}

int implied(const PathCond &pc, E cond) {
  if (isConst(cond)) return cond->val != 0;
  if (opt_z3only) return -1;
  Work a, b;
  if (quick(pc, cond, false, a, 80) == No) return 0;
  if (quick(pc, cond, true, b, 80) == No) return 1;
  return -1;
}
unsigned distinct(const PathCond &pc, E e, unsigned max) {
  Dom d = domAt(pc, (unsigned)e->single);
  uint8_t m[MAXSYM]; memset(m, 0, sizeof m);
  std::vector<u128> seen;
  for (unsigned v = 0; v < 256 && seen.size() <= max; v++) if (d.has(v)) {
    m[e->single] = (uint8_t)v;
    u128 x = evalExpr(e, m);
    if (std::find(seen.begin(), seen.end(), x) == seen.end()) seen.push_back(x);
  }
  return seen.size();
}

static void narrow(PathCond &pc, E e, bool neg) {
  if (isConst(e)) return;
  if (e->single >= 0) {
    unsigned s = (unsigned)e->single;
    if (pc.dom.size() <= s) pc.dom.resize(s + 1);
    pc.dom[s] = pc.dom[s] & (neg ? ~domOf(e) : domOf(e));
    return;
  }
  if (e->width != 1) return;
  if (isNot(e)) { narrow(pc, e->a, !neg); return; }
  if (e->op != Op::And && e->op != Op::Or) return;
  if ((e->op == Op::And) != neg) { narrow(pc, e->a, neg); narrow(pc, e->b, neg); return; }
  // a disjunction of which one part is impossible implies the other
  Work w1, w2;
  if (quick(pc, e->a, neg, w1, 80) == No) narrow(pc, e->b, neg);
  else if (quick(pc, e->b, neg, w2, 80) == No) narrow(pc, e->a, neg);
}

void addConstraint(PathCond &pc, E cond, const Model &m) {
  pc.model = m;
  if (isConst(cond)) return;
  if (cond->op == Op::And && cond->width == 1) {
    pc.cons.push_back(cond);                      // as a whole too, to be recognised again
    addConstraint(pc, cond->a, m); addConstraint(pc, cond->b, m); return;
  }
  narrow(pc, cond, false);
  if (cond->single < 0) {
    // a disjunction already implied by the domains does not tie its symbols together
    Work w;
    if (quick(pc, cond, true, w, 80) != No) pc.multi.add(cond->mask);
  }
  pc.cons.push_back(cond);
}

std::string toSMT2(const PathCond &pc, E cond) {
  Z &z = Zc();
  z3::solver s(z.ctx);
  for (E e : pc.cons) s.add(trBool(e));
  s.add(trBool(cond));
  return s.to_smt2();
}
