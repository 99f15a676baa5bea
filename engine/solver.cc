#include "solver.h"

#include <z3.h>

#include "llvm/ADT/SmallVector.h"

#include <algorithm>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <unordered_set>

namespace sx {
SolverStats gSolverStats;
double gHardTimeout = 60, gDeadline = 0;
std::string gDumpDir;

namespace {
using Clock = std::chrono::steady_clock;
double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }

Z3_context C;
bool gErr = false;
void errh(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  gErr = true;
}
std::unordered_map<E, Z3_ast> bvMemo, boolMemo, intMemo, intBoolMemo;
std::vector<Z3_ast> bvVars, intVars;

Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(C, w); }
Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(C) : Z3_mk_fpa_sort_32(C); }
Z3_ast rne() { return Z3_mk_fpa_rne(C); }

Z3_ast inc(Z3_ast a) { return a; }  // non-refcounted context: terms live as long as it

Z3_ast toBV(E e);
Z3_ast toBool(E e);

Z3_ast toFP(E e) { return Z3_mk_fpa_to_fp_bv(C, toBV(e), fps(e->width)); }
Z3_ast fromFP(Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(C, f); }

Z3_ast bvVar(uint32_t i) {
  if (bvVars.size() <= i) bvVars.resize(i + 1, nullptr);
  if (!bvVars[i]) {
    std::string n = "v" + std::to_string(i);
    bvVars[i] = inc(Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), bvs(gVars[i].width)));
  }
  return bvVars[i];
}

Z3_ast toBool(E e) {
  auto it = boolMemo.find(e);
  if (it != boolMemo.end()) return it->second;
  Z3_ast r;
  Z3_ast a[2];
  switch (e->op) {
    case Op::Const: r = e->val ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case Op::And: a[0] = toBool(e->k[0]); a[1] = toBool(e->k[1]); r = Z3_mk_and(C, 2, a); break;
    case Op::Or: a[0] = toBool(e->k[0]); a[1] = toBool(e->k[1]); r = Z3_mk_or(C, 2, a); break;
    case Op::Xor:
      if (isTrue(e->k[1])) r = Z3_mk_not(C, toBool(e->k[0]));
      else r = Z3_mk_xor(C, toBool(e->k[0]), toBool(e->k[1]));
      break;
    case Op::Eq:
      if (e->k[0]->width == 1) r = Z3_mk_eq(C, toBool(e->k[0]), toBool(e->k[1]));
      else r = Z3_mk_eq(C, toBV(e->k[0]), toBV(e->k[1]));
      break;
    case Op::Ult: r = Z3_mk_bvult(C, toBV(e->k[0]), toBV(e->k[1])); break;
    case Op::Ule: r = Z3_mk_bvule(C, toBV(e->k[0]), toBV(e->k[1])); break;
    case Op::Slt: r = Z3_mk_bvslt(C, toBV(e->k[0]), toBV(e->k[1])); break;
    case Op::Sle: r = Z3_mk_bvsle(C, toBV(e->k[0]), toBV(e->k[1])); break;
    case Op::Ite: r = Z3_mk_ite(C, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
    case Op::FEq: r = Z3_mk_fpa_eq(C, toFP(e->k[0]), toFP(e->k[1])); break;
    case Op::FLt: r = Z3_mk_fpa_lt(C, toFP(e->k[0]), toFP(e->k[1])); break;
    case Op::FLe: r = Z3_mk_fpa_leq(C, toFP(e->k[0]), toFP(e->k[1])); break;
    case Op::FIsNaN: r = Z3_mk_fpa_is_nan(C, toFP(e->k[0])); break;
    default: r = Z3_mk_eq(C, toBV(e), Z3_mk_unsigned_int64(C, 1, bvs(1)));
  }
  boolMemo[e] = inc(r);
  return r;
}

Z3_ast toBV(E e) {
  auto it = bvMemo.find(e);
  if (it != bvMemo.end()) return it->second;
  Z3_ast r = nullptr;
  auto A = [&](int i) { return toBV(e->k[i]); };
  switch (e->op) {
    case Op::Const:
      if (e->big) { llvm::SmallVector<char, 80> s; e->big->toStringUnsigned(s, 10); s.push_back(0); r = Z3_mk_numeral(C, s.data(), bvs(e->width)); }
      else r = Z3_mk_unsigned_int64(C, e->val, bvs(e->width));
      break;
    case Op::Var: r = bvVar(e->val); break;
    case Op::Add: r = Z3_mk_bvadd(C, A(0), A(1)); break;
    case Op::Sub: r = Z3_mk_bvsub(C, A(0), A(1)); break;
    case Op::Mul: r = Z3_mk_bvmul(C, A(0), A(1)); break;
    case Op::UDiv: r = Z3_mk_bvudiv(C, A(0), A(1)); break;
    case Op::SDiv: r = Z3_mk_bvsdiv(C, A(0), A(1)); break;
    case Op::URem: r = Z3_mk_bvurem(C, A(0), A(1)); break;
    case Op::SRem: r = Z3_mk_bvsrem(C, A(0), A(1)); break;
    case Op::Shl: r = Z3_mk_bvshl(C, A(0), A(1)); break;
    case Op::LShr: r = Z3_mk_bvlshr(C, A(0), A(1)); break;
    case Op::AShr: r = Z3_mk_bvashr(C, A(0), A(1)); break;
    case Op::And: if (e->width == 1) goto boolean; r = Z3_mk_bvand(C, A(0), A(1)); break;
    case Op::Or: if (e->width == 1) goto boolean; r = Z3_mk_bvor(C, A(0), A(1)); break;
    case Op::Xor: if (e->width == 1) goto boolean; r = Z3_mk_bvxor(C, A(0), A(1)); break;
    case Op::Ite: if (e->width == 1) goto boolean; r = Z3_mk_ite(C, toBool(e->k[0]), A(1), A(2)); break;
    case Op::ZExt: r = Z3_mk_zero_ext(C, e->width - e->k[0]->width, A(0)); break;
    case Op::SExt: r = Z3_mk_sign_ext(C, e->width - e->k[0]->width, A(0)); break;
    case Op::Extract: r = Z3_mk_extract(C, e->val + e->width - 1, e->val, A(0)); break;
    case Op::Concat: r = Z3_mk_concat(C, A(0), A(1)); break;
    case Op::FAdd: r = fromFP(Z3_mk_fpa_add(C, rne(), toFP(e->k[0]), toFP(e->k[1]))); break;
    case Op::FSub: r = fromFP(Z3_mk_fpa_sub(C, rne(), toFP(e->k[0]), toFP(e->k[1]))); break;
    case Op::FMul: r = fromFP(Z3_mk_fpa_mul(C, rne(), toFP(e->k[0]), toFP(e->k[1]))); break;
    case Op::FDiv: r = fromFP(Z3_mk_fpa_div(C, rne(), toFP(e->k[0]), toFP(e->k[1]))); break;
    case Op::FAbs: r = fromFP(Z3_mk_fpa_abs(C, toFP(e->k[0]))); break;
    case Op::FNeg: r = fromFP(Z3_mk_fpa_neg(C, toFP(e->k[0]))); break;
    case Op::FSqrt: r = fromFP(Z3_mk_fpa_sqrt(C, rne(), toFP(e->k[0]))); break;
    case Op::FFloor: r = fromFP(Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rtn(C), toFP(e->k[0]))); break;
    case Op::FCeil: r = fromFP(Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rtp(C), toFP(e->k[0]))); break;
    case Op::FTrunc: r = fromFP(Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rtz(C), toFP(e->k[0]))); break;
    case Op::FRint: r = fromFP(Z3_mk_fpa_round_to_integral(C, rne(), toFP(e->k[0]))); break;
    case Op::FMin: r = fromFP(Z3_mk_fpa_min(C, toFP(e->k[0]), toFP(e->k[1]))); break;
    case Op::FMax: r = fromFP(Z3_mk_fpa_max(C, toFP(e->k[0]), toFP(e->k[1]))); break;
    case Op::UIToFP: r = fromFP(Z3_mk_fpa_to_fp_unsigned(C, rne(), A(0), fps(e->width))); break;
    case Op::SIToFP: r = fromFP(Z3_mk_fpa_to_fp_signed(C, rne(), A(0), fps(e->width))); break;
    case Op::FPToUI: r = Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), toFP(e->k[0]), e->width); break;
    case Op::FPToSI: r = Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), toFP(e->k[0]), e->width); break;
    case Op::FPExt: case Op::FPTrunc: r = fromFP(Z3_mk_fpa_to_fp_float(C, rne(), toFP(e->k[0]), fps(e->width))); break;
    default:
    boolean:
      r = Z3_mk_ite(C, toBool(e), Z3_mk_unsigned_int64(C, 1, bvs(1)), Z3_mk_unsigned_int64(C, 0, bvs(1)));
  }
  bvMemo[e] = inc(r);
  return r;
}

// ------------------------------------------------------------ integer lowering
// Sound translation to integer arithmetic: every term's value is its unsigned value.
// Bitwise operators that have no arithmetic meaning make the lowering fail.
struct NoInt {};
Z3_sort ints() { return Z3_mk_int_sort(C); }
Z3_ast inum(uint64_t v) { return Z3_mk_unsigned_int64(C, v, ints()); }
Z3_ast pow2(unsigned w) { llvm::SmallVector<char, 80> s; APInt::getOneBitSet(w + 1, w).toStringUnsigned(s, 10); s.push_back(0); return Z3_mk_numeral(C, s.data(), ints()); }
std::vector<Z3_ast> gSide;      // side constraints of the current query
std::unordered_map<E, Z3_ast> intQ;
unsigned gFresh = 0;
Z3_ast freshInt() { return Z3_mk_fresh_const(C, "q", ints()); }
Z3_ast mk2(Z3_ast (*f)(Z3_context, unsigned, Z3_ast const*), Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return f(C, 2, x); }
Z3_ast iadd(Z3_ast a, Z3_ast b) { return mk2(Z3_mk_add, a, b); }
Z3_ast isub(Z3_ast a, Z3_ast b) { return mk2(Z3_mk_sub, a, b); }
Z3_ast imul(Z3_ast a, Z3_ast b) { return mk2(Z3_mk_mul, a, b); }
Z3_ast toInt(E e);
Z3_ast toIntBool(E e);

// r = t mod m (0 <= r < m), via fresh quotient
Z3_ast modBy(Z3_ast t, Z3_ast m, Z3_ast* quo = nullptr) {
  Z3_ast q = freshInt(), r = freshInt();
  gSide.push_back(Z3_mk_eq(C, t, iadd(imul(m, q), r)));
  gSide.push_back(Z3_mk_ge(C, r, inum(0)));
  gSide.push_back(Z3_mk_lt(C, r, m));
  if (quo) *quo = q;
  return r;
}
Z3_ast toSigned(E e) {
  Z3_ast u = toInt(e);
  if (e->hi < (1ull << (e->width - 1))) return u;
  if (e->lo >= (1ull << (e->width - 1))) return isub(u, pow2(e->width));
  return Z3_mk_ite(C, Z3_mk_ge(C, u, pow2(e->width - 1)), isub(u, pow2(e->width)), u);
}
Z3_ast toInt(E e) {
  auto it = intQ.find(e);
  if (it != intQ.end()) return it->second;
  if (e->width > 64) throw NoInt();
  uint64_t M = maskOf(e->width);
  Z3_ast r = nullptr;
  auto A = [&](int i) { return toInt(e->k[i]); };
  switch (e->op) {
    case Op::Const: r = inum(e->val); break;
    case Op::Var: {
      r = Z3_mk_const(C, Z3_mk_string_symbol(C, ("i" + std::to_string(e->val)).c_str()), ints());
      gSide.push_back(Z3_mk_ge(C, r, inum(gVars[e->val].lo)));
      gSide.push_back(Z3_mk_le(C, r, inum(gVars[e->val].hi)));
      break;
    }
    case Op::Add: {
      E a = e->k[0], b = e->k[1];
      if (a->hi <= M - b->hi) r = iadd(A(0), A(1));
      else if (isConst(b) && a->lo >= ((0 - b->val) & M)) r = isub(A(0), inum((0 - b->val) & M));
      else {
        Z3_ast t = iadd(A(0), A(1));
        r = Z3_mk_ite(C, Z3_mk_gt(C, t, inum(M)), isub(t, pow2(e->width)), t);
      }
      break;
    }
    case Op::Sub: {
      E a = e->k[0], b = e->k[1];
      Z3_ast t = isub(A(0), A(1));
      if (a->lo >= b->hi) r = t;
      else r = Z3_mk_ite(C, Z3_mk_lt(C, t, inum(0)), iadd(t, pow2(e->width)), t);
      break;
    }
    case Op::Mul: {
      E a = e->k[0], b = e->k[1];
      if ((unsigned __int128)a->hi * b->hi <= M) r = imul(A(0), A(1));
      else if (isConst(b) && b->val > M / 2) {
        // signed constant: x * -k
        uint64_t k = (0 - b->val) & M;
        Z3_ast t = Z3_mk_unary_minus(C, imul(inum(k), A(0)));
        r = modBy(t, pow2(e->width));
      } else r = modBy(imul(A(0), A(1)), pow2(e->width));
      break;
    }
    case Op::UDiv: case Op::URem: {
      if (e->k[1]->lo == 0) throw NoInt();
      Z3_ast q; Z3_ast rem = modBy(A(0), A(1), &q);
      r = e->op == Op::UDiv ? q : rem;
      break;
    }
    case Op::SDiv: case Op::SRem: {
      if (!isConst(e->k[1]) || e->k[1]->val == 0 || e->k[1]->val > M / 2) throw NoInt();
      Z3_ast s = toSigned(e->k[0]), m = inum(e->k[1]->val);
      Z3_ast neg = Z3_mk_lt(C, s, inum(0));
      Z3_ast ab = Z3_mk_ite(C, neg, Z3_mk_unary_minus(C, s), s);
      Z3_ast q; Z3_ast rem = modBy(ab, m, &q);
      Z3_ast v = e->op == Op::SDiv ? q : rem;
      Z3_ast nv = Z3_mk_ite(C, Z3_mk_eq(C, v, inum(0)), inum(0), isub(pow2(e->width), v));
      r = Z3_mk_ite(C, neg, nv, v);
      break;
    }
    case Op::Ite:
      if (e->width == 1) { r = Z3_mk_ite(C, toIntBool(e), inum(1), inum(0)); break; }
      r = Z3_mk_ite(C, toIntBool(e->k[0]), A(1), A(2));
      break;
    case Op::ZExt: r = A(0); break;
    case Op::SExt:
      r = Z3_mk_ite(C, Z3_mk_ge(C, A(0), pow2(e->k[0]->width - 1)), iadd(A(0), isub(pow2(e->width), pow2(e->k[0]->width))), A(0));
      break;
    case Op::Extract: {
      E a = e->k[0];
      Z3_ast t = toInt(a);
      if (e->val) { Z3_ast q; modBy(t, pow2(e->val), &q); t = q; }
      if (e->val + e->width < a->width && (a->hi >> e->val) > M) t = modBy(t, pow2(e->width));
      r = t;
      break;
    }
    case Op::Concat: r = iadd(imul(pow2(e->k[1]->width), A(0)), A(1)); break;
    case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle:
      r = Z3_mk_ite(C, toIntBool(e), inum(1), inum(0));
      break;
    case Op::And: case Op::Or: case Op::Xor:
      if (e->width == 1) { r = Z3_mk_ite(C, toIntBool(e), inum(1), inum(0)); break; }
      if (e->op == Op::Xor && isConst(e->k[1]) && e->k[1]->val == M) { r = isub(inum(M), A(0)); break; }
      throw NoInt();
    default: throw NoInt();
  }
  intQ[e] = r;
  return r;
}
Z3_ast toIntBool(E e) {
  Z3_ast a[2];
  switch (e->op) {
    case Op::Const: return e->val ? Z3_mk_true(C) : Z3_mk_false(C);
    case Op::And: a[0] = toIntBool(e->k[0]); a[1] = toIntBool(e->k[1]); return Z3_mk_and(C, 2, a);
    case Op::Or: a[0] = toIntBool(e->k[0]); a[1] = toIntBool(e->k[1]); return Z3_mk_or(C, 2, a);
    case Op::Xor:
      if (isTrue(e->k[1])) return Z3_mk_not(C, toIntBool(e->k[0]));
      return Z3_mk_xor(C, toIntBool(e->k[0]), toIntBool(e->k[1]));
    case Op::Eq: return Z3_mk_eq(C, toInt(e->k[0]), toInt(e->k[1]));
    case Op::Ult: return Z3_mk_lt(C, toInt(e->k[0]), toInt(e->k[1]));
    case Op::Ule: return Z3_mk_le(C, toInt(e->k[0]), toInt(e->k[1]));
    case Op::Slt: return Z3_mk_lt(C, toSigned(e->k[0]), toSigned(e->k[1]));
    case Op::Sle: return Z3_mk_le(C, toSigned(e->k[0]), toSigned(e->k[1]));
    case Op::Ite: if (e->width == 1) return Z3_mk_ite(C, toIntBool(e->k[0]), toIntBool(e->k[1]), toIntBool(e->k[2])); throw NoInt();
    default: return Z3_mk_eq(C, toInt(e), inum(1));
  }
}

void initZ3() {
  if (C) return;
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, errh);
}

bool hardArith(E e, std::unordered_set<E>& seen) {
  // nonconstant multiplication, or division/remainder, wide multiplication by constants
  if (!seen.insert(e).second) return false;
  if ((e->op == Op::UDiv || e->op == Op::URem || e->op == Op::SDiv || e->op == Op::SRem) && e->width > 16) return true;
  if (e->op == Op::Mul && e->width > 16) return true;
  for (int i = 0; i < e->nk; i++) if (hardArith(e->k[i], seen)) return true;
  return false;
}

// Ends a query that takes too long. (z3 4.8.12's own timers can deadlock when nested.)
struct Watchdog {
  std::mutex m;
  std::condition_variable cv;
  bool armed = false, started = false;
  Clock::time_point until;
  void arm(double secs) {
    std::lock_guard<std::mutex> g(m);
    until = Clock::now() + std::chrono::microseconds((long long)(secs * 1e6));
    armed = true;
    if (!started) { started = true; std::thread([this] { loop(); }).detach(); }
    cv.notify_all();
  }
  void disarm() { std::lock_guard<std::mutex> g(m); armed = false; }
  void loop() {
    std::unique_lock<std::mutex> g(m);
    for (;;) {
      if (!armed) { cv.wait(g); continue; }
      if (Clock::now() >= until) {
        Z3_interrupt(C);  // repeated until the query gives up
        cv.wait_for(g, std::chrono::milliseconds(50));
        continue;
      }
      cv.wait_until(g, until);
    }
  }
};
Watchdog* gDog;

Res runSolver(Z3_solver s, const std::vector<E>& q, const std::vector<uint32_t>& vars, bool integer, double secs, Model* model) {
  if (!gDog) gDog = new Watchdog;
  if (gDeadline > 0) secs = std::min(secs, std::max(1.0, gDeadline - std::chrono::duration<double>(Clock::now().time_since_epoch()).count()));
  gDog->arm(secs);
  Z3_lbool r = Z3_solver_check(C, s);
  gDog->disarm();
  if (gErr) { gErr = false; return Res::Unknown; }
  if (r == Z3_L_FALSE) return Res::Unsat;
  if (r == Z3_L_UNDEF) return Res::Unknown;
  if (model) {
    Z3_model m = Z3_solver_get_model(C, s);
    Z3_model_inc_ref(C, m);
    if (model->size() < gVars.size()) {
      size_t o = model->size(); model->resize(gVars.size());
      for (size_t i = o; i < gVars.size(); i++) (*model)[i] = gVars[i].lo;
    }
    for (uint32_t v : vars) {
      Z3_ast x = integer ? Z3_mk_const(C, Z3_mk_string_symbol(C, ("i" + std::to_string(v)).c_str()), ints()) : bvVar(v);
      Z3_ast out = nullptr;
      if (Z3_model_eval(C, m, x, true, &out)) {
        uint64_t val = 0;
        if (Z3_get_numeral_uint64(C, out, &val)) (*model)[v] = val;
      }
    }
    Z3_model_dec_ref(C, m);
    bumpEvalEpoch();
    // the model must satisfy the query (guards against FP/integer translation errors)
    bool good = true;
    for (E e : q) good &= evalExpr(e, *model) != 0;
    bumpEvalEpoch();  // callers evaluate under another model
    if (!good) return Res::Unknown;
  }
  return Res::Sat;
}

Z3_solver mkSolver(const char* kind) {
  Z3_solver s;
  if (!kind) s = Z3_mk_simple_solver(C);
  else if (std::string(kind) == "qfbv") {
    Z3_tactic t = Z3_mk_tactic(C, "qfbv"); Z3_tactic_inc_ref(C, t);
    s = Z3_mk_solver_from_tactic(C, t); Z3_tactic_dec_ref(C, t);
  } else s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, kind));
  Z3_solver_inc_ref(C, s);
  return s;
}

Res attempt(const char* kind, double secs, bool integer, const std::vector<E>& q, const std::vector<uint32_t>& vars, Model* model) {
  Z3_solver s = mkSolver(kind);
  Res r;
  try {
    if (integer) {
      gSide.clear(); intQ.clear();
      std::vector<Z3_ast> as;
      for (E e : q) as.push_back(toIntBool(e));
      for (Z3_ast a : as) Z3_solver_assert(C, s, a);
      for (size_t i = 0; i < gSide.size(); i++) Z3_solver_assert(C, s, gSide[i]);
      gSolverStats.z3int++;
    } else {
      for (E e : q) Z3_solver_assert(C, s, toBool(e));
      for (uint32_t v : vars) {
        unsigned w = gVars[v].width;
        if (gVars[v].lo > 0) Z3_solver_assert(C, s, Z3_mk_bvuge(C, bvVar(v), Z3_mk_unsigned_int64(C, gVars[v].lo, bvs(w))));
        if (gVars[v].hi < maskOf(w)) Z3_solver_assert(C, s, Z3_mk_bvule(C, bvVar(v), Z3_mk_unsigned_int64(C, gVars[v].hi, bvs(w))));
      }
      gSolverStats.z3++;
    }
    r = runSolver(s, q, vars, integer, secs, model);
  } catch (NoInt&) { r = Res::Unknown; }
  Z3_solver_dec_ref(C, s);
  intQ.clear(); gSide.clear();
  return r;
}

struct CacheEnt { Res r; std::vector<std::pair<uint32_t, uint64_t>> vals; };
struct VecHash { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = v.size(); for (auto x : v) h = (h * 0x9E3779B97F4A7C15ull) ^ (x + (h >> 29)); return h; } };
std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> gCache;
}  // namespace

Res solve(const std::vector<E>& constraints, E extra, Model* model) {
  initZ3();
  auto t0 = Clock::now();
  gSolverStats.queries++;
  if (isFalse(extra)) return Res::Unsat;
  // Slice: constraints transitively sharing variables with extra.
  std::vector<E> q{extra};
  std::set<uint32_t> vs;
  for (uint32_t v : varsOf(extra)) vs.insert(v);
  std::vector<char> used(constraints.size(), 0);
  bool changed = true;
  while (changed) {
    changed = false;
    for (size_t i = 0; i < constraints.size(); i++) {
      if (used[i]) continue;
      bool hit = false;
      for (uint32_t v : varsOf(constraints[i])) if (vs.count(v)) { hit = true; break; }
      if (hit) {
        used[i] = 1; changed = true; q.push_back(constraints[i]);
        for (uint32_t v : varsOf(constraints[i])) vs.insert(v);
      }
    }
  }
  std::vector<uint32_t> key;
  for (E e : q) key.push_back(e->id);
  std::sort(key.begin() + 1, key.end());
  std::vector<uint32_t> vars(vs.begin(), vs.end());
  auto it = gCache.find(key);
  auto store = [&](Model* m, const CacheEnt& c) {
    if (!m) return;
    if (m->size() < gVars.size()) { size_t o = m->size(); m->resize(gVars.size()); for (size_t i = o; i < gVars.size(); i++) (*m)[i] = gVars[i].lo; }
    for (auto& p : c.vals) (*m)[p.first] = p.second;
  };
  if (it != gCache.end()) {
    gSolverStats.cacheHits++;
    if (it->second.r == Res::Sat) store(model, it->second);
    return it->second.r;
  }
  Model tmp; if (model) tmp = *model;
  Res r = Res::Unknown;
  bool fp = false;
  for (E e : q) fp |= e->fp;
  if (fp) {
    r = attempt("QF_FPBV", gHardTimeout, false, q, vars, &tmp);
  } else {
    std::unordered_set<E> seen; bool hard = false;
    for (E e : q) hard |= hardArith(e, seen);
    if (hard) {
      r = attempt(nullptr, 0.3, false, q, vars, &tmp);
      if (r == Res::Unknown) r = attempt("QF_LIA", 3, true, q, vars, &tmp);
      if (r == Res::Unknown) r = attempt("QF_NIA", 3, true, q, vars, &tmp);
      if (r == Res::Unknown) r = attempt("qfbv", gHardTimeout / 2, false, q, vars, &tmp);
      if (r == Res::Unknown) r = attempt(nullptr, gHardTimeout / 2, true, q, vars, &tmp);
    } else {
      r = attempt(nullptr, 2, false, q, vars, &tmp);
      if (r == Res::Unknown) r = attempt("qfbv", gHardTimeout, false, q, vars, &tmp);
    }
  }
  double dt = since(t0);
  if (dt > 0.25 && getenv("SX_SLOW")) {
    fprintf(stderr, "SLOW %.2f r=%d:\n", dt, (int)r);
    for (E e : q) fprintf(stderr, "  %s\n", toStr(e, 20).c_str());
  }
  gSolverStats.time += dt;
  gSolverStats.maxTime = std::max(gSolverStats.maxTime, dt);
  if (r == Res::Sat) gSolverStats.sat++; else if (r == Res::Unsat) gSolverStats.unsat++; else gSolverStats.unknown++;
  if (r == Res::Unknown && getenv("SX_DEBUG")) {
    fprintf(stderr, "UNKNOWN query:\n");
    for (E e : q) fprintf(stderr, "  %s\n", toStr(e, 20).c_str());
  }
  if (r != Res::Unknown) {
    CacheEnt c; c.r = r;
    if (r == Res::Sat) for (uint32_t v : vars) c.vals.push_back({v, v < tmp.size() ? tmp[v] : gVars[v].lo});
    if (r == Res::Sat) store(model, c);
    gCache.emplace(std::move(key), std::move(c));
  }
  return r;
}
}  // namespace sx
