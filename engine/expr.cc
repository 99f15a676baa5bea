#include "expr.h"

#include "llvm/ADT/SmallString.h"

#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>

namespace sx {

std::vector<VarInfo> gVars;
static std::vector<E> gVarExprs;
static uint32_t gNextId = 1;
static uint32_t gEpoch = 1;
static std::vector<std::pair<uint32_t, std::map<uint32_t, APInt>>> gWide;

namespace {
struct Key {
  Op op; uint16_t w; E k0, k1, k2; uint64_t val;
  bool operator==(const Key& o) const {
    return op == o.op && w == o.w && k0 == o.k0 && k1 == o.k1 && k2 == o.k2 && val == o.val;
  }
};
struct KeyHash {
  size_t operator()(const Key& k) const {
    uint64_t h = (uint64_t)k.op * 0x9E3779B97F4A7C15ull + k.w;
    auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
    mix((uint64_t)k.k0); mix((uint64_t)k.k1); mix((uint64_t)k.k2); mix(k.val);
    return h ^ (h >> 31);
  }
};
std::unordered_map<Key, Expr*, KeyHash> gTable;
std::map<std::pair<unsigned, std::string>, Expr*> gBigTable;

bool isFpOp(Op o) { return o >= Op::FAdd; }

void interval(Expr* e) {
  unsigned w = e->width;
  uint64_t M = maskOf(w);
  e->lo = 0; e->hi = M;
  if (w > 64) { e->hi = ~0ull; return; }
  E a = e->k[0], b = e->k[1], c = e->k[2];
  switch (e->op) {
    case Op::Const: e->lo = e->hi = e->val; break;
    case Op::Var: e->lo = gVars[e->val].lo; e->hi = gVars[e->val].hi; break;
    case Op::Add:
      if (a->hi <= M - b->hi) { e->lo = a->lo + b->lo; e->hi = a->hi + b->hi; }
      else if (isConst(b)) {
        // x + c where every value wraps (subtraction of a constant)
        uint64_t neg = (0 - b->val) & M;
        if (a->lo >= neg && neg) { e->lo = a->lo - neg; e->hi = a->hi - neg; }
      }
      break;
    case Op::Sub:
      if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; }
      break;
    case Op::Mul: {
      unsigned __int128 p = (unsigned __int128)a->hi * b->hi;
      if (p <= M) { e->lo = a->lo * b->lo; e->hi = (uint64_t)p; }
      break;
    }
    case Op::UDiv:
      if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; }
      break;
    case Op::URem:
      if (b->lo > 0) { e->hi = std::min(a->hi, b->hi - 1); }
      break;
    case Op::And: e->hi = std::min(a->hi, b->hi); break;
    case Op::Or: {
      e->lo = std::max(a->lo, b->lo);
      uint64_t m = a->hi | b->hi;
      for (int s = 1; s < 64; s <<= 1) m |= m >> s;
      e->hi = m & M;
      break;
    }
    case Op::Xor: {
      uint64_t m = a->hi | b->hi;
      for (int s = 1; s < 64; s <<= 1) m |= m >> s;
      e->hi = m & M;
      break;
    }
    case Op::LShr:
      if (isConst(b) && b->val < w) { e->lo = a->lo >> b->val; e->hi = a->hi >> b->val; }
      else e->hi = a->hi;
      break;
    case Op::Ite: e->lo = std::min(b->lo, c->lo); e->hi = std::max(b->hi, c->hi); break;
    case Op::ZExt: e->lo = a->lo; e->hi = a->hi; break;
    case Op::SExt:
      if (a->hi < (1ull << (a->width - 1))) { e->lo = a->lo; e->hi = a->hi; }
      break;
    case Op::Extract:
      if (e->val == 0 && a->width <= 64 && a->hi <= M) { e->lo = a->lo; e->hi = a->hi; }
      else if (a->width <= 64 && e->val + w == a->width) { e->lo = a->lo >> e->val; e->hi = a->hi >> e->val; }
      break;
    case Op::Concat:
      e->lo = (a->lo << b->width) | b->lo;
      e->hi = (a->hi << b->width) | b->hi;
      break;
    default: break;
  }
}

E intern(Op op, unsigned w, E k0 = nullptr, E k1 = nullptr, E k2 = nullptr, uint64_t val = 0) {
  Key key{op, (uint16_t)w, k0, k1, k2, val};
  auto it = gTable.find(key);
  if (it != gTable.end()) return it->second;
  Expr* e = new Expr();
  e->op = op; e->width = w; e->id = gNextId++;
  e->k[0] = k0; e->k[1] = k1; e->k[2] = k2; e->val = val; e->big = nullptr;
  e->nk = k2 ? 3 : k1 ? 2 : k0 ? 1 : 0;
  e->fp = isFpOp(op) || (k0 && k0->fp) || (k1 && k1->fp) || (k2 && k2->fp);
  e->evEpoch = 0; e->vars = nullptr;
  interval(e);
  gTable.emplace(key, e);
  return e;
}
bool isPow2(uint64_t v) { return v && !(v & (v - 1)); }
unsigned log2u(uint64_t v) { return 63 - __builtin_clzll(v); }
}  // namespace

size_t exprCount() { return gNextId; }

E mkConst(uint64_t v, unsigned w) {
  if (w > 64) return mkBig(APInt(w, v));
  return intern(Op::Const, w, nullptr, nullptr, nullptr, v & maskOf(w));
}
E mkBig(const APInt& v) {
  unsigned w = v.getBitWidth();
  if (w <= 64) return mkConst(v.getZExtValue(), w);
  llvm::SmallString<80> s; v.toString(s, 16, false);
  auto key = std::make_pair(w, std::string(s.str()));
  auto it = gBigTable.find(key);
  if (it != gBigTable.end()) return it->second;
  Expr* e = new Expr();
  e->op = Op::Const; e->width = w; e->id = gNextId++; e->nk = 0;
  e->k[0] = e->k[1] = e->k[2] = nullptr; e->val = v.getActiveBits() <= 64 ? v.getZExtValue() : ~0ull;
  e->big = new APInt(v); e->lo = 0; e->hi = ~0ull; e->fp = false; e->evEpoch = 0; e->vars = nullptr;
  gBigTable[key] = e;
  return e;
}
APInt constBig(E e) { return e->big ? *e->big : APInt(e->width, e->val); }
E mkVar(const std::string& name, unsigned w, uint64_t lo, uint64_t hi) {
  gVars.push_back({name, w, lo, hi});
  E e = intern(Op::Var, w, nullptr, nullptr, nullptr, gVars.size() - 1);
  gVarExprs.push_back(e);
  return e;
}
E varByIndex(uint32_t idx) { return gVarExprs[idx]; }

static uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w) {
  uint64_t M = maskOf(w);
  switch (op) {
    case Op::Add: return (a + b) & M;
    case Op::Sub: return (a - b) & M;
    case Op::Mul: return (a * b) & M;
    case Op::UDiv: return b ? a / b : M;
    case Op::URem: return b ? a % b : a;
    case Op::SDiv: {
      int64_t x = sext64(a, w), y = sext64(b, w);
      if (!y) return x < 0 ? 1 : M;
      if (y == -1) return (0 - (uint64_t)x) & M;
      return (uint64_t)(x / y) & M;
    }
    case Op::SRem: {
      int64_t x = sext64(a, w), y = sext64(b, w);
      if (!y) return a;
      if (y == -1) return 0;
      return (uint64_t)(x % y) & M;
    }
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Shl: return b >= w ? 0 : (a << b) & M;
    case Op::LShr: return b >= w ? 0 : a >> b;
    case Op::AShr: { int64_t x = sext64(a, w); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & M; }
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return sext64(a, w) < sext64(b, w);
    case Op::Sle: return sext64(a, w) <= sext64(b, w);
    default: abort();
  }
}
static APInt foldBinBig(Op op, const APInt& a, const APInt& b) {
  unsigned w = a.getBitWidth();
  switch (op) {
    case Op::Add: return a + b;
    case Op::Sub: return a - b;
    case Op::Mul: return a * b;
    case Op::UDiv: return b == 0 ? APInt::getAllOnes(w) : a.udiv(b);
    case Op::URem: return b == 0 ? a : a.urem(b);
    case Op::SDiv: return b == 0 ? (a.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a.sdiv(b);
    case Op::SRem: return b == 0 ? a : a.srem(b);
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Shl: return b.uge(w) ? APInt(w, 0) : a.shl(b);
    case Op::LShr: return b.uge(w) ? APInt(w, 0) : a.lshr(b);
    case Op::AShr: return b.uge(w) ? a.ashr(w - 1) : a.ashr(b);
    case Op::Eq: return APInt(1, a == b);
    case Op::Ult: return APInt(1, a.ult(b));
    case Op::Ule: return APInt(1, a.ule(b));
    case Op::Slt: return APInt(1, a.slt(b));
    case Op::Sle: return APInt(1, a.sle(b));
    default: abort();
  }
}

E mkNot(E a) {
  if (a->width == 1) {
    if (isConst(a)) return mkConst(!a->val, 1);
    if (a->op == Op::Ult) return mkBin(Op::Ule, a->k[1], a->k[0]);
    if (a->op == Op::Ule) return mkBin(Op::Ult, a->k[1], a->k[0]);
    if (a->op == Op::Slt) return mkBin(Op::Sle, a->k[1], a->k[0]);
    if (a->op == Op::Sle) return mkBin(Op::Slt, a->k[1], a->k[0]);
  }
  if (a->width > 64) return mkBin(Op::Xor, a, mkBig(APInt::getAllOnes(a->width)));
  return mkBin(Op::Xor, a, mkConst(maskOf(a->width), a->width));
}

static void collectXor(E e, std::vector<E>& out, uint64_t& c) {
  if (e->op == Op::Xor && out.size() < 64) {
    collectXor(e->k[0], out, c);
    collectXor(e->k[1], out, c);
  } else if (isConst(e) && e->width <= 64) c ^= e->val;
  else out.push_back(e);
}

// value known to have its low n bits zero
static bool lowZero(E e, unsigned n) {
  if (e->width <= 64 && isConst(e)) return (e->val & maskOf(n)) == 0;
  if (e->op == Op::Concat) {
    if (e->k[1]->width >= n) return lowZero(e->k[1], n);
    return isConst(e->k[1]) && e->k[1]->width <= 64 && e->k[1]->val == 0 &&
           lowZero(e->k[0], n - e->k[1]->width);
  }
  return false;
}
static unsigned lowZeroBits(E e) {
  if (isConst(e) && e->width <= 64) return e->val ? __builtin_ctzll(e->val) : e->width;
  if (isConst(e)) return constBig(e).countr_zero();
  if (e->op == Op::Concat) {
    unsigned z = lowZeroBits(e->k[1]);
    if (z == e->k[1]->width) return z + lowZeroBits(e->k[0]);
    return z;
  }
  return 0;
}
// number of leading zero bits known
static unsigned highZeroBits(E e) {
  if (e->width <= 64) return e->hi ? e->width - 1 - log2u(e->hi) : e->width;
  if (isConst(e)) return constBig(e).countl_zero();
  if (e->op == Op::ZExt) return e->width - e->k[0]->width + (e->k[0]->width <= 64 ? highZeroBits(e->k[0]) : 0);
  if (e->op == Op::Concat) {
    unsigned z = highZeroBits(e->k[0]);
    if (z == e->k[0]->width) return z + highZeroBits(e->k[1]);
    return z;
  }
  return 0;
}
static E disjointOr(E a, E b) {
  // a has low bits zero, b fits there
  for (int t = 0; t < 2; t++, std::swap(a, b)) {
    unsigned z = lowZeroBits(a);
    if (z == 0 || z >= a->width) continue;
    if (b->width - highZeroBits(b) <= z)
      return mkConcat(mkExtract(a, z, a->width - z), mkExtract(b, 0, z));
  }
  return nullptr;
}

static E simplifyBin(Op op, E a, E b) {
  unsigned w = a->width;
  if (isConst(a) && isConst(b)) {
    if (w <= 64) return mkConst(foldBin(op, a->val, b->val, w), op >= Op::Eq && op <= Op::Sle ? 1 : w);
    return mkBig(foldBinBig(op, constBig(a), constBig(b)));
  }
  bool small = w <= 64;
  uint64_t M = maskOf(w);
  bool ca = small && isConst(a), cb = small && isConst(b);
  switch (op) {
    case Op::Add:
      if (isConst(a)) { std::swap(a, b); std::swap(ca, cb); }
      if (cb && b->val == 0) return a;
      if (w == 1) return mkBin(Op::Xor, a, b);
      if (cb && a->op == Op::Add && isConst(a->k[1])) return mkBin(Op::Add, a->k[0], mkConst(a->k[1]->val + b->val, w));
      if (cb && a->op == Op::Sub && isConst(a->k[0])) return mkBin(Op::Sub, mkConst(a->k[0]->val + b->val, w), a->k[1]);
      if (small && !cb && a->op == Op::Add && isConst(a->k[1])) return mkBin(Op::Add, mkBin(Op::Add, a->k[0], b), a->k[1]);
      if (small && !cb && b->op == Op::Add && isConst(b->k[1])) return mkBin(Op::Add, mkBin(Op::Add, a, b->k[0]), b->k[1]);
      if (a->op == Op::Sub && a->k[1] == b) return a->k[0];
      if (b->op == Op::Sub && b->k[1] == a) return b->k[0];
      if (cb && a->op == Op::Ite && isConst(a->k[1]) && isConst(a->k[2]))
        return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
      if (E d = disjointOr(a, b)) return d;
      if (!isConst(b) && a->id > b->id) std::swap(a, b);
      return intern(op, w, a, b);
    case Op::Sub:
      if (a == b) return mkConst(0, w);
      if (cb) return mkBin(Op::Add, a, mkConst(0 - b->val, w));
      if (w == 1) return mkBin(Op::Xor, a, b);
      if (a->op == Op::Add) {
        if (a->k[0] == b) return a->k[1];
        if (a->k[1] == b) return a->k[0];
        if (small && isConst(a->k[1])) return mkBin(Op::Add, mkBin(Op::Sub, a->k[0], b), a->k[1]);
      }
      if (b->op == Op::Add) {
        if (b->k[0] == a) return mkSub(mkConst(0, w), b->k[1]);
        if (b->k[1] == a) return mkSub(mkConst(0, w), b->k[0]);
        if (small && isConst(b->k[1])) return mkBin(Op::Add, mkBin(Op::Sub, a, b->k[0]), mkConst(0 - b->k[1]->val, w));
      }
      if (a->op == Op::Sub && a->k[0] == b) return mkSub(mkConst(0, w), a->k[1]);
      if (b->op == Op::Sub && b->k[0] == a) return b->k[1];
      return intern(op, w, a, b);
    case Op::Mul:
      if (isConst(a)) { std::swap(a, b); std::swap(ca, cb); }
      if (cb) {
        if (b->val == 0) return b;
        if (b->val == 1) return a;
        if (isPow2(b->val)) return mkBin(Op::Shl, a, mkConst(log2u(b->val), w));
        if (a->op == Op::Mul && isConst(a->k[1])) return mkBin(Op::Mul, a->k[0], mkConst(a->k[1]->val * b->val, w));
        if (a->op == Op::Ite && isConst(a->k[1]) && isConst(a->k[2]))
          return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        if (a->op == Op::Add && isConst(a->k[1]) )
          return mkBin(Op::Add, mkBin(Op::Mul, a->k[0], b), mkConst(a->k[1]->val * b->val, w));
      }
      if (w == 1) return mkBin(Op::And, a, b);
      if (!isConst(b) && a->id > b->id) std::swap(a, b);
      return intern(op, w, a, b);
    case Op::UDiv:
      if (cb) {
        if (b->val == 1) return a;
        if (isPow2(b->val)) return mkBin(Op::LShr, a, mkConst(log2u(b->val), w));
        if (b->val && a->hi < b->val) return mkConst(0, w);
        if (b->val) {
          // (x*c + y) / c with no overflow and y < c
          if (a->op == Op::Mul && isConst(a->k[1]) && a->k[1]->val == b->val && a->k[0]->hi <= M / b->val) return a->k[0];
          if (a->op == Op::Add)
            for (int t = 0; t < 2; t++) {
              E x = a->k[t], y = a->k[1 - t];
              if (x->op == Op::Mul && isConst(x->k[1]) && x->k[1]->val == b->val && x->k[0]->hi <= M / b->val && y->hi < b->val && x->hi <= M - y->hi) return x->k[0];
            }
          if (a->lo / b->val == a->hi / b->val) return mkConst(a->lo / b->val, w);
        }
      }
      if (small && b->lo > 0 && a->hi < b->lo) return mkConst(0, w);
      return intern(op, w, a, b);
    case Op::URem:
      if (cb) {
        if (b->val == 1) return mkConst(0, w);
        if (isPow2(b->val)) return mkBin(Op::And, a, mkConst(b->val - 1, w));
        if (b->val && a->hi < b->val) return a;
        if (b->val) {
          if (a->op == Op::Mul && isConst(a->k[1]) && a->k[1]->val % b->val == 0 && a->k[0]->hi <= M / a->k[1]->val) return mkConst(0, w);
          if (a->op == Op::Add)
            for (int t = 0; t < 2; t++) {
              E x = a->k[t], y = a->k[1 - t];
              if (x->op == Op::Mul && isConst(x->k[1]) && x->k[1]->val % b->val == 0 && x->k[0]->hi <= M / x->k[1]->val && x->hi <= M - y->hi) return mkBin(Op::URem, y, b);
            }
          if (a->lo / b->val == a->hi / b->val) return mkBin(Op::Add, a, mkConst(0 - (a->lo / b->val) * b->val, w));
        }
      }
      if (small && b->lo > 0 && a->hi < b->lo) return a;
      return intern(op, w, a, b);
    case Op::SDiv:
      if (small && a->hi <= M / 2 && b->hi <= M / 2) return mkBin(Op::UDiv, a, b);
      return intern(op, w, a, b);
    case Op::SRem:
      if (small && a->hi <= M / 2 && b->hi <= M / 2) return mkBin(Op::URem, a, b);
      return intern(op, w, a, b);
    case Op::And:
      if (isConst(a)) { std::swap(a, b); std::swap(ca, cb); }
      if (a == b) return a;
      if (cb) {
        if (b->val == 0) return b;
        if (b->val == M) return a;
        if (isPow2(b->val + 1)) {
          unsigned n = log2u(b->val + 1);
          if (a->hi <= b->val) return a;
          return mkZExt(mkExtract(a, 0, n), w);
        }
        if (a->op == Op::And && isConst(a->k[1])) return mkBin(Op::And, a->k[0], mkConst(a->k[1]->val & b->val, w));
        if (a->op == Op::Ite && isConst(a->k[1]) && isConst(a->k[2]))
          return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        // mask of contiguous high bits / single run
        unsigned tz = __builtin_ctzll(b->val);
        uint64_t sh = b->val >> tz;
        if (isPow2(sh + 1)) {
          unsigned n = sh == ~0ull ? 64 : log2u(sh + 1);
          E mid = mkExtract(a, tz, n);
          E r = tz ? mkConcat(mid, mkConst(0, tz)) : mid;
          return mkZExt(r, w);
        }
      }
      if (w == 1 && ((a->op == Op::Xor && a->k[0] == b && isConst(a->k[1])) || (b->op == Op::Xor && b->k[0] == a && isConst(b->k[1])))) return mkConst(0, 1);
      if (!isConst(b) && a->id > b->id) std::swap(a, b);
      if (w == 1 && b->op == Op::And && (b->k[0] == a || b->k[1] == a)) return b;
      return intern(op, w, a, b);
    case Op::Or:
      if (isConst(a)) { std::swap(a, b); std::swap(ca, cb); }
      if (a == b) return a;
      if (cb) {
        if (b->val == 0) return a;
        if (b->val == M) return b;
      }
      if (w == 1 && ((a->op == Op::Xor && a->k[0] == b && isConst(a->k[1])) || (b->op == Op::Xor && b->k[0] == a && isConst(b->k[1])))) return mkConst(1, 1);
      if (E d = disjointOr(a, b)) return d;
      if (!isConst(b) && a->id > b->id) std::swap(a, b);
      return intern(op, w, a, b);
    case Op::Xor: {
      if (!small) {
        if (a == b) return mkConst(0, w);
        if (a->op == Op::Concat && b->op == Op::Concat && a->k[1]->width == b->k[1]->width)
          return mkConcat(mkBin(Op::Xor, a->k[0], b->k[0]), mkBin(Op::Xor, a->k[1], b->k[1]));
        if (a->id > b->id) std::swap(a, b);
        return intern(op, w, a, b);
      }
      std::vector<E> xs; uint64_t c = 0;
      collectXor(a, xs, c); collectXor(b, xs, c);
      std::sort(xs.begin(), xs.end(), [](E x, E y) { return x->id < y->id; });
      std::vector<E> ys;
      for (E x : xs) { if (!ys.empty() && ys.back() == x) ys.pop_back(); else ys.push_back(x); }
      if (ys.empty()) return mkConst(c, w);
      if (w == 1 && ys.size() == 1 && c) {
        E x = ys[0];
        if (x->op == Op::Ult || x->op == Op::Ule || x->op == Op::Slt || x->op == Op::Sle) return mkNot(x);
      }
      E r = ys[0];
      for (size_t i = 1; i < ys.size(); i++) {
        E d = nullptr;
        if (r->op != Op::Xor && (d = disjointOr(r, ys[i]))) r = d;
        else r = intern(Op::Xor, w, r, ys[i]);
      }
      if (c) {
        if (r->op == Op::Concat && r->width <= 64)
          return mkConcat(mkBin(Op::Xor, r->k[0], mkConst(c >> r->k[1]->width, r->k[0]->width)), mkBin(Op::Xor, r->k[1], mkConst(c, r->k[1]->width)));
        r = intern(Op::Xor, w, r, mkConst(c, w));
      }
      return r;
    }
    case Op::Shl:
      if (cb) {
        if (b->val == 0) return a;
        if (b->val >= w) return mkConst(0, w);
        return mkConcat(mkExtract(a, 0, w - b->val), mkConst(0, b->val));
      }
      if (!small && isConst(b)) {
        uint64_t s = constBig(b).getLimitedValue();
        if (s == 0) return a;
        if (s >= w) return mkConst(0, w);
        return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
      }
      return intern(op, w, a, b);
    case Op::LShr:
      if (isConst(b)) {
        uint64_t s = small ? b->val : constBig(b).getLimitedValue();
        if (s == 0) return a;
        if (s >= w) return mkConst(0, w);
        return mkZExt(mkExtract(a, s, w - s), w);
      }
      return intern(op, w, a, b);
    case Op::AShr:
      if (isConst(b)) {
        uint64_t s = small ? b->val : constBig(b).getLimitedValue();
        if (s == 0) return a;
        if (s >= w) s = w - 1;
        return mkSExt(mkExtract(a, s, w - s), w);
      }
      return intern(op, w, a, b);
    case Op::Eq: {
      if (a == b) return mkConst(1, 1);
      if (isConst(a)) { std::swap(a, b); std::swap(ca, cb); }
      if (small && (a->hi < b->lo || b->hi < a->lo)) return mkConst(0, 1);
      if (w == 1) {
        if (cb) return b->val ? a : mkNot(a);
        return mkNot(mkBin(Op::Xor, a, b));
      }
      if (cb) {
        uint64_t c = b->val;
        switch (a->op) {
          case Op::ZExt:
            if (c > maskOf(a->k[0]->width)) return mkConst(0, 1);
            return mkBin(Op::Eq, a->k[0], mkConst(c, a->k[0]->width));
          case Op::SExt: {
            uint64_t t = c & maskOf(a->k[0]->width);
            if (((uint64_t)sext64(t, a->k[0]->width) & M) != c) return mkConst(0, 1);
            return mkBin(Op::Eq, a->k[0], mkConst(t, a->k[0]->width));
          }
          case Op::Concat:
            return mkBin(Op::And, mkBin(Op::Eq, a->k[0], mkConst(c >> a->k[1]->width, a->k[0]->width)),
                         mkBin(Op::Eq, a->k[1], mkConst(c, a->k[1]->width)));
          case Op::Add:
            if (isConst(a->k[1])) return mkBin(Op::Eq, a->k[0], mkConst(c - a->k[1]->val, w));
            break;
          case Op::Sub:
            if (c == 0) return mkBin(Op::Eq, a->k[0], a->k[1]);
            if (isConst(a->k[0])) return mkBin(Op::Eq, a->k[1], mkConst(a->k[0]->val - c, w));
            break;
          case Op::Xor:
            if (isConst(a->k[1])) return mkBin(Op::Eq, a->k[0], mkConst(c ^ a->k[1]->val, w));
            if (c == 0 ) return mkBin(Op::Eq, a->k[0], a->k[1]);
            break;
          case Op::Mul:
            if (isConst(a->k[1]) && a->k[1]->val && a->k[0]->hi <= M / a->k[1]->val) {
              if (c % a->k[1]->val) return mkConst(0, 1);
              return mkBin(Op::Eq, a->k[0], mkConst(c / a->k[1]->val, w));
            }
            break;
          case Op::Ite:
            if (isConst(a->k[1]) || isConst(a->k[2]))
              return mkIte(a->k[0], mkBin(Op::Eq, a->k[1], b), mkBin(Op::Eq, a->k[2], b));
            break;
          default: break;
        }
      } else {
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->width == b->k[0]->width) return mkBin(Op::Eq, a->k[0], b->k[0]);
        if (a->op == Op::Concat && b->op == Op::Concat && a->k[1]->width == b->k[1]->width)
          return mkBin(Op::And, mkBin(Op::Eq, a->k[0], b->k[0]), mkBin(Op::Eq, a->k[1], b->k[1]));
        if (a->op == Op::Add && small) {
          if (a->k[0] == b) return mkBin(Op::Eq, a->k[1], mkConst(0, w));
          if (a->k[1] == b) return mkBin(Op::Eq, a->k[0], mkConst(0, w));
          if (b->op == Op::Add)
            for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
              if (a->k[i] == b->k[j]) return mkBin(Op::Eq, a->k[1 - i], b->k[1 - j]);
        }
        if (b->op == Op::Add && small) {
          if (b->k[0] == a) return mkBin(Op::Eq, b->k[1], mkConst(0, w));
          if (b->k[1] == a) return mkBin(Op::Eq, b->k[0], mkConst(0, w));
        }
        if (small && (a->op == Op::Xor || b->op == Op::Xor)) {
          E x = mkBin(Op::Xor, a, b);
          if (isConst(x)) return mkConst(x->val == 0, 1);
          if (x->op != Op::Xor) return mkBin(Op::Eq, x, mkConst(0, w));
        }
      }
      if (!isConst(b) && a->id > b->id) std::swap(a, b);
      return intern(op, 1, a, b);
    }
    case Op::Ult:
      if (a == b) return mkConst(0, 1);
      if (small) {
        if (a->hi < b->lo) return mkConst(1, 1);
        if (a->lo >= b->hi) return mkConst(0, 1);
        if (w == 1) return mkBin(Op::And, mkNot(a), b);
        if (cb && b->val == a->lo + 1 ) return mkBin(Op::Eq, a, mkConst(a->lo, w));
        if (ca && a->val == b->lo) return mkNot(mkBin(Op::Eq, b, a));
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->width == b->k[0]->width) return mkBin(op, a->k[0], b->k[0]);
        if (a->op == Op::ZExt && cb && b->val <= maskOf(a->k[0]->width)) return mkBin(op, a->k[0], mkConst(b->val, a->k[0]->width));
        if (b->op == Op::ZExt && ca && a->val <= maskOf(b->k[0]->width)) return mkBin(op, mkConst(a->val, b->k[0]->width), b->k[0]);
        if (cb && a->op == Op::Ite && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        if (ca && b->op == Op::Ite && isConst(b->k[1]) && isConst(b->k[2])) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
      }
      return intern(op, 1, a, b);
    case Op::Ule:
      if (a == b) return mkConst(1, 1);
      if (small) {
        if (a->hi <= b->lo) return mkConst(1, 1);
        if (a->lo > b->hi) return mkConst(0, 1);
        // a <= c  <=>  a < c+1
        if (cb && b->val != M) return mkBin(Op::Ult, a, mkConst(b->val + 1, w));
        if (ca && a->val != 0) return mkBin(Op::Ult, mkConst(a->val - 1, w), b);
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->width == b->k[0]->width) return mkBin(op, a->k[0], b->k[0]);
      }
      return intern(op, 1, a, b);
    case Op::Slt: case Op::Sle:
      if (a == b) return mkConst(op == Op::Sle, 1);
      if (small && w > 1) {
        uint64_t H = 1ull << (w - 1);
        Op u = op == Op::Slt ? Op::Ult : Op::Ule;
        if (a->hi < H && b->hi < H) return mkBin(u, a, b);
        if (a->lo >= H && b->lo >= H) return mkBin(u, a, b);
        if (a->lo >= H && b->hi < H) return mkConst(1, 1);
        if (a->hi < H && b->lo >= H) return mkConst(0, 1);
        if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->width == b->k[0]->width) return mkBin(op, a->k[0], b->k[0]);
        if (a->op == Op::SExt && cb && (int64_t)sext64(b->val & maskOf(a->k[0]->width), a->k[0]->width) == sext64(b->val, w))
          return mkBin(op, a->k[0], mkConst(b->val, a->k[0]->width));
        if (b->op == Op::SExt && ca && (int64_t)sext64(a->val & maskOf(b->k[0]->width), b->k[0]->width) == sext64(a->val, w))
          return mkBin(op, mkConst(a->val, b->k[0]->width), b->k[0]);
        if (cb && a->op == Op::Ite && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
      }
      return intern(op, 1, a, b);
    default: abort();
  }
}

E mkBin(Op op, E a, E b) {
  if (a->width != b->width) { fprintf(stderr, "width mismatch op %d: %u %u\n", (int)op, a->width, b->width); abort(); }
  return simplifyBin(op, a, b);
}
E mkSub(E a, E b) { return mkBin(Op::Sub, a, b); }

E mkIte(E c, E a, E b) {
  if (isConst(c)) return c->val ? a : b;
  if (a == b) return a;
  if (c->op == Op::Xor && isConst(c->k[1])) return mkIte(c->k[0], b, a);
  if (a->width == 1) {
    if (isTrue(a)) return mkBin(Op::Or, c, b);
    if (isFalse(a)) return mkBin(Op::And, mkNot(c), b);
    if (isTrue(b)) return mkBin(Op::Or, mkNot(c), a);
    if (isFalse(b)) return mkBin(Op::And, c, a);
  }
  if (a->op == Op::Ite && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->op == Op::Ite && b->k[0] == c) return mkIte(c, a, b->k[2]);
  // x == k ? k : x  ->  x
  if (c->op == Op::Eq && c->k[0] == b && c->k[1] == a) return b;
  return intern(Op::Ite, a->width, c, a, b);
}
E mkZExt(E a, unsigned w) {
  if (w == a->width) return a;
  if (isConst(a)) return mkBig(constBig(a).zext(w));
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  return intern(Op::ZExt, w, a);
}
E mkSExt(E a, unsigned w) {
  if (w == a->width) return a;
  if (isConst(a)) return mkBig(constBig(a).sext(w));
  if (a->op == Op::ZExt) return mkZExt(a, w);
  if (a->width <= 64 && a->width > 1 && a->hi < (1ull << (a->width - 1))) return mkZExt(a, w);
  if (a->op == Op::SExt) return mkSExt(a->k[0], w);
  return intern(Op::SExt, w, a);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->width) return a;
  if (lo + w > a->width) { fprintf(stderr, "bad extract\n"); abort(); }
  if (isConst(a)) return mkBig(constBig(a).extractBits(w, lo));
  switch (a->op) {
    case Op::Extract: return mkExtract(a->k[0], lo + a->val, w);
    case Op::Concat: {
      unsigned lw = a->k[1]->width;
      if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case Op::ZExt: {
      unsigned iw = a->k[0]->width;
      if (lo >= iw) return mkConst(0, w);
      if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
      return mkZExt(mkExtract(a->k[0], lo, iw - lo), w);
    }
    case Op::SExt: {
      unsigned iw = a->k[0]->width;
      if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
      if (lo == 0) return mkSExt(a->k[0], w);
      break;
    }
    case Op::And: case Op::Or: case Op::Xor:
      return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case Op::Add: case Op::Sub: case Op::Mul:
      if (lo == 0) {
        bool ok = true;
        for (int i = 0; i < 2; i++) {
          Op o = a->k[i]->op;
          if (!(o == Op::Const || o == Op::ZExt || o == Op::SExt || o == Op::Concat || o == Op::Add || o == Op::Mul || o == Op::Sub)) ok = false;
        }
        if (ok) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
      }
      break;
    case Op::Ite:
      if (isConst(a->k[1]) || isConst(a->k[2]) || a->k[1]->op == Op::ZExt || a->k[2]->op == Op::ZExt)
        return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
      break;
    default: break;
  }
  if (a->width <= 64 && lo > 0 && (a->hi >> lo) == 0) return mkConst(0, w);
  return intern(Op::Extract, w, a, nullptr, nullptr, lo);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->width + lo->width;
  if (isConst(hi) && isConst(lo)) {
    APInt r = constBig(hi).zext(w).shl(lo->width) | constBig(lo).zext(w);
    return mkBig(r);
  }
  if (isConst(hi) && constBig(hi) == 0) return mkZExt(lo, w);
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && hi->val == lo->val + lo->width)
    return mkExtract(hi->k[0], lo->val, w);
  // low part of a sum or product that was narrowed when it was cut off
  if (hi->op == Op::Extract && hi->val == lo->width && (lo->op == Op::Add || lo->op == Op::Sub || lo->op == Op::Mul) && mkExtract(hi->k[0], 0, lo->width) == lo)
    return mkExtract(hi->k[0], 0, w);
  // right-associate to keep adjacent extracts merging: (x . y) . z
  if (hi->op == Op::Concat) {
    E y = hi->k[1];
    if (y->op == Op::Extract && lo->op == Op::Extract && y->k[0] == lo->k[0] && y->val == lo->val + lo->width)
      return mkConcat(hi->k[0], mkConcat(y, lo));
    if (isConst(y) && isConst(lo)) return mkConcat(hi->k[0], mkConcat(y, lo));
  }
  if (lo->op == Op::Concat) {
    E y = lo->k[0];
    if (y->op == Op::Extract && hi->op == Op::Extract && y->k[0] == hi->k[0] && hi->val == y->val + y->width)
      return mkConcat(mkConcat(hi, y), lo->k[1]);
    if (isConst(y) && isConst(hi)) return mkConcat(mkConcat(hi, y), lo->k[1]);
  }
  // zext(x) with its high part being exactly zero recombination
  if (hi->op == Op::ZExt && isConst(lo) && lo->width <= 64 && lo->val == 0 && w <= 64)
    return mkZExt(mkConcat(hi->k[0], lo), w);
  if (hi->op == Op::ZExt) return mkZExt(mkConcat(hi->k[0], lo), w);
  // concat(xor(a,b), xor(c,d)) recombination if pieces recombine to whole values
  if (hi->op == Op::Xor && lo->op == Op::Xor && w <= 64) {
    E a1 = hi->k[0], a2 = hi->k[1], b1 = lo->k[0], b2 = lo->k[1];
    auto adj = [](E h, E l) { return h->op == Op::Extract && l->op == Op::Extract && h->k[0] == l->k[0] && h->val == l->val + l->width; };
    if (adj(a1, b1) && adj(a2, b2)) return mkBin(Op::Xor, mkConcat(a1, b1), mkConcat(a2, b2));
    if (adj(a1, b2) && adj(a2, b1)) return mkBin(Op::Xor, mkConcat(a1, b2), mkConcat(a2, b1));
  }
  return intern(Op::Concat, w, hi, lo);
}

// ---------------------------------------------------------------- FP
static double d64(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t u64(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static float d32(uint64_t v) { uint32_t x = v; float f; memcpy(&f, &x, 4); return f; }
static uint64_t u32(float f) { uint32_t v; memcpy(&v, &f, 4); return v; }

template <class T> static T fp1(Op op, T a) {
  switch (op) {
    case Op::FAbs: return std::fabs(a);
    case Op::FNeg: return -a;
    case Op::FFloor: return std::floor(a);
    case Op::FCeil: return std::ceil(a);
    case Op::FTrunc: return std::trunc(a);
    case Op::FRint: return std::rint(a);
    case Op::FSqrt: return std::sqrt(a);
    default: abort();
  }
}
template <class T> static T fp2(Op op, T a, T b) {
  switch (op) {
    case Op::FAdd: return a + b;
    case Op::FSub: return a - b;
    case Op::FMul: return a * b;
    case Op::FDiv: return a / b;
    case Op::FMin: return std::fmin(a, b);
    case Op::FMax: return std::fmax(a, b);
    default: abort();
  }
}
uint64_t foldFp1(Op op, uint64_t a, unsigned wa, unsigned wr) {
  switch (op) {
    case Op::FIsNaN: return wa == 64 ? std::isnan(d64(a)) : std::isnan(d32(a));
    case Op::UIToFP: return wr == 64 ? u64((double)a) : u32((float)a);
    case Op::SIToFP: return wr == 64 ? u64((double)sext64(a, wa)) : u32((float)sext64(a, wa));
    case Op::FPToUI: {
      double d = wa == 64 ? d64(a) : d32(a);
      // x86-64 behaviour for out of range values is target specific; see exec.cc
      if (!(d > -1.0 && d < std::ldexp(1.0, wr))) return wr == 64 ? (1ull << 63) : (uint64_t)(int64_t)((d > -9.3e18 && d < 9.2e18) ? (int64_t)d : INT64_MIN) & maskOf(wr);
      return (uint64_t)d & maskOf(wr);
    }
    case Op::FPToSI: {
      double d = wa == 64 ? d64(a) : d32(a);
      double lim = std::ldexp(1.0, wr - 1);
      if (!(d > -lim - 1 && d < lim)) return (1ull << (wr - 1));
      return (uint64_t)(int64_t)d & maskOf(wr);
    }
    case Op::FPExt: return u64((double)d32(a));
    case Op::FPTrunc: return u32((float)d64(a));
    default:
      return wa == 64 ? u64(fp1<double>(op, d64(a))) : u32(fp1<float>(op, d32(a)));
  }
}
uint64_t foldFp2(Op op, uint64_t a, uint64_t b, unsigned w) {
  if (op == Op::FEq) return w == 64 ? d64(a) == d64(b) : d32(a) == d32(b);
  if (op == Op::FLt) return w == 64 ? d64(a) < d64(b) : d32(a) < d32(b);
  if (op == Op::FLe) return w == 64 ? d64(a) <= d64(b) : d32(a) <= d32(b);
  return w == 64 ? u64(fp2<double>(op, d64(a), d64(b))) : u32(fp2<float>(op, d32(a), d32(b)));
}

// Integer value known to be exactly represented: UIToFP/SIToFP of a nonneg value.
static E fpInt(E e) {
  if ((e->op == Op::UIToFP || e->op == Op::SIToFP) && e->width == 64 && e->k[0]->width <= 64) {
    E i = e->k[0];
    if (e->op == Op::SIToFP && i->width > 1 && i->hi >= (1ull << (i->width - 1))) return nullptr;
    if (i->hi < (1ull << 53)) return mkZExt(i, 64);
  }
  if (isConst(e) && e->width == 64) {
    double d = d64(e->val);
    if (d >= 0 && d < 9007199254740992.0 && std::floor(d) == d && !std::signbit(d)) return mkConst((uint64_t)d, 64);
  }
  return nullptr;
}

// known to be +0, -0 or NaN
static bool fpZero(E e, int depth = 0) {
  if (e->width != 64 || depth > 12) return false;
  if (isConst(e)) return (e->val << 1) == 0;
  switch (e->op) {
    case Op::Ite: return fpZero(e->k[1], depth + 1) && fpZero(e->k[2], depth + 1);
    case Op::FMul: return fpZero(e->k[0], depth + 1) || fpZero(e->k[1], depth + 1);
    case Op::FAdd: case Op::FSub: case Op::FMin: case Op::FMax: return fpZero(e->k[0], depth + 1) && fpZero(e->k[1], depth + 1);
    case Op::FNeg: case Op::FAbs: case Op::FFloor: case Op::FCeil: case Op::FTrunc: case Op::FRint: return fpZero(e->k[0], depth + 1);
    default: return false;
  }
}
static E fpNotFinite(E e) {
  if (e->op == Op::UIToFP || e->op == Op::SIToFP) return mkConst(0, 1);
  return mkNot(mkFp2(Op::FLt, mkFp1(Op::FAbs, e, 64), mkConst(u64(INFINITY), 64)));
}

E mkFp1(Op op, E a, unsigned w) {
  if (a->width == 64 && !isConst(a) && op == Op::FIsNaN) {
    switch (a->op) {
      case Op::Ite: return mkIte(a->k[0], mkFp1(op, a->k[1], 1), mkFp1(op, a->k[2], 1));
      case Op::FMin: case Op::FMax: return mkBin(Op::And, mkFp1(op, a->k[0], 1), mkFp1(op, a->k[1], 1));
      case Op::FNeg: case Op::FAbs: case Op::FFloor: case Op::FCeil: case Op::FTrunc: case Op::FRint: return mkFp1(op, a->k[0], 1);
      case Op::FMul:
        for (int i = 0; i < 2; i++)
          if (fpZero(a->k[i])) return mkBin(Op::Or, mkFp1(op, a->k[i], 1), fpZero(a->k[1 - i]) ? mkFp1(op, a->k[1 - i], 1) : fpNotFinite(a->k[1 - i]));
        break;
      case Op::FAdd: case Op::FSub:
        if (fpZero(a->k[0]) && fpZero(a->k[1])) return mkBin(Op::Or, mkFp1(op, a->k[0], 1), mkFp1(op, a->k[1], 1));
        break;
      default: break;
    }
  }
  // (the conversion of NaN is undefined and has been excluded)
  if ((op == Op::FPToUI || op == Op::FPToSI) && !isConst(a) && fpZero(a)) return w <= 64 ? mkConst(0, w) : intern(op, w, a);
  if (isConst(a) && a->width <= 64) return mkConst(foldFp1(op, a->val, a->width, w), w);
  if (op == Op::FIsNaN && (a->op == Op::UIToFP || a->op == Op::SIToFP)) return mkConst(0, 1);
  if ((op == Op::FFloor || op == Op::FCeil || op == Op::FTrunc || op == Op::FRint) && fpInt(a)) return a;
  if (op == Op::FAbs && fpInt(a)) return a;
  if ((op == Op::FCeil || op == Op::FFloor || op == Op::FTrunc) && a->op == Op::FDiv) {
    // Lemma: a < 2^32, 1 <= b < 2^16 integers: rounding of a/b to double (relative
    // error 2^-53) is below 1/b, so it neither crosses nor reaches an integer
    // unless the quotient is one; ceil/floor of the rounded quotient is exact.
    E x = fpInt(a->k[0]), y = fpInt(a->k[1]);
    if (x && y && x->hi < (1ull << 32) && y->lo >= 1 && y->hi < (1ull << 16)) {
      E q;
      if (op == Op::FCeil)
        q = mkBin(Op::UDiv, mkBin(Op::Add, x, mkBin(Op::Add, y, mkConst(~0ull, 64))), y);
      else q = mkBin(Op::UDiv, x, y);
      return mkFp1(Op::UIToFP, q, 64);
    }
  }
  if ((op == Op::FPToUI || op == Op::FPToSI)) {
    E i = fpInt(a);
    if (!i && (a->op == Op::UIToFP) && a->k[0]->hi < (1ull << 53)) i = mkZExt(a->k[0], 64);
    if (i && w <= 64 && i->hi <= (op == Op::FPToUI ? maskOf(w) : maskOf(w) / 2)) return mkExtract(i, 0, w);
  }
  return intern(op, w, a);
}
E mkFp2(Op op, E a, E b) {
  bool cmp = op == Op::FEq || op == Op::FLt || op == Op::FLe;
  unsigned w = cmp ? 1 : a->width;
  if (isConst(a) && isConst(b)) return mkConst(foldFp2(op, a->val, b->val, a->width), w);
  if (a->width == 64) {
    uint64_t one = u64(1.0);
    if (op == Op::FMul && isConst(a) && a->val == one && fpInt(b)) return b;
    if (op == Op::FMul && isConst(b) && b->val == one && fpInt(a)) return a;
    if (op == Op::FDiv && isConst(b) && b->val == one && fpInt(a)) return a;
    if (cmp) {
      bool za = fpZero(a), zb = fpZero(b);
      if (za || zb) {
        E r = op == Op::FLt && za && zb ? mkConst(0, 1) : za && zb ? mkConst(1, 1) : nullptr;
        if (!r && za && !isConst(a)) r = mkFp2(op, mkConst(0, 64), b);
        if (!r && zb && !isConst(b)) r = mkFp2(op, a, mkConst(0, 64));
        if (r) return mkBin(Op::And, r, mkNot(mkBin(Op::Or, mkFp1(Op::FIsNaN, a, 1), mkFp1(Op::FIsNaN, b, 1))));
      }
      E x = fpInt(a), y = fpInt(b);
      if (x && y) return mkBin(op == Op::FEq ? Op::Eq : op == Op::FLt ? Op::Ult : Op::Ule, x, y);
    }
    if (op == Op::FAdd || op == Op::FMul) {
      E x = fpInt(a), y = fpInt(b);
      if (x && y) {
        unsigned __int128 r = op == Op::FAdd ? (unsigned __int128)x->hi + y->hi : (unsigned __int128)x->hi * y->hi;
        if (r < ((unsigned __int128)1 << 53)) return mkFp1(Op::UIToFP, mkBin(op == Op::FAdd ? Op::Add : Op::Mul, x, y), 64);
      }
    }
  }
  return intern(op, w, a, b);
}

// ---------------------------------------------------------------- eval
void bumpEvalEpoch() { gEpoch++; gWide.clear(); }
static std::unordered_map<E, APInt> gWideEv;
static uint32_t gWideEpoch = 0;

APInt evalBig(E e, const Model& m) {
  if (e->width <= 64) return APInt(e->width, evalExpr(e, m));
  if (gWideEpoch != gEpoch) { gWideEv.clear(); gWideEpoch = gEpoch; }
  auto it = gWideEv.find(e);
  if (it != gWideEv.end()) return it->second;
  APInt r(e->width, 0);
  switch (e->op) {
    case Op::Const: r = *e->big; break;
    case Op::Var: abort();
    case Op::Ite: r = evalExpr(e->k[0], m) ? evalBig(e->k[1], m) : evalBig(e->k[2], m); break;
    case Op::ZExt: r = evalBig(e->k[0], m).zext(e->width); break;
    case Op::SExt: r = evalBig(e->k[0], m).sext(e->width); break;
    case Op::Extract: r = evalBig(e->k[0], m).extractBits(e->width, e->val); break;
    case Op::Concat: r = evalBig(e->k[0], m).zext(e->width).shl(e->k[1]->width) | evalBig(e->k[1], m).zext(e->width); break;
    default: r = foldBinBig(e->op, evalBig(e->k[0], m), evalBig(e->k[1], m));
  }
  gWideEv.emplace(e, r);
  return r;
}
uint64_t evalExpr(E e, const Model& m) {
  if (e->op == Op::Const) return e->val;
  if (e->evEpoch == gEpoch) return e->ev;
  uint64_t r = 0;
  switch (e->op) {
    case Op::Var: r = e->val < m.size() ? m[e->val] : gVars[e->val].lo; break;
    case Op::Ite: r = evalExpr(e->k[0], m) ? evalExpr(e->k[1], m) : evalExpr(e->k[2], m); break;
    case Op::ZExt: r = evalExpr(e->k[0], m); break;
    case Op::SExt: r = (uint64_t)sext64(evalExpr(e->k[0], m), e->k[0]->width) & maskOf(e->width); break;
    case Op::Extract:
      if (e->k[0]->width <= 64) r = (evalExpr(e->k[0], m) >> e->val) & maskOf(e->width);
      else r = evalBig(e->k[0], m).extractBits(e->width, e->val).getZExtValue();
      break;
    case Op::Concat: r = (evalExpr(e->k[0], m) << e->k[1]->width) | evalExpr(e->k[1], m); break;
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FEq: case Op::FLt: case Op::FLe:
    case Op::FMin: case Op::FMax:
      r = foldFp2(e->op, evalExpr(e->k[0], m), evalExpr(e->k[1], m), e->k[0]->width); break;
    case Op::FIsNaN: case Op::FAbs: case Op::FNeg: case Op::FFloor: case Op::FCeil: case Op::FTrunc: case Op::FRint:
    case Op::FSqrt: case Op::UIToFP: case Op::SIToFP: case Op::FPToUI: case Op::FPToSI: case Op::FPExt: case Op::FPTrunc:
      r = foldFp1(e->op, evalExpr(e->k[0], m), e->k[0]->width, e->width); break;
    default:
      if (e->k[0]->width <= 64) r = foldBin(e->op, evalExpr(e->k[0], m), evalExpr(e->k[1], m), e->k[0]->width);
      else r = foldBinBig(e->op, evalBig(e->k[0], m), evalBig(e->k[1], m)).getZExtValue();
  }
  e->evEpoch = gEpoch; e->ev = r;
  return r;
}

const std::vector<uint32_t>& varsOf(E e) {
  static const std::vector<uint32_t> none;
  if (e->vars) return *e->vars;
  if (e->nk == 0) {
    if (e->op == Op::Var) { auto* v = new std::vector<uint32_t>{(uint32_t)e->val}; e->vars = v; return *v; }
    e->vars = &none; return none;
  }
  const std::vector<uint32_t>* first = &varsOf(e->k[0]);
  std::vector<uint32_t> acc; bool own = false;
  for (int i = 1; i < e->nk; i++) {
    const auto& v = varsOf(e->k[i]);
    const auto& cur = own ? acc : *first;
    if (v.empty() || &v == first) continue;
    if (cur.empty()) { first = &v; own = false; continue; }
    if (std::includes(cur.begin(), cur.end(), v.begin(), v.end())) continue;
    std::vector<uint32_t> u;
    std::set_union(cur.begin(), cur.end(), v.begin(), v.end(), std::back_inserter(u));
    acc.swap(u); own = true;
  }
  e->vars = own ? new std::vector<uint32_t>(acc) : first;
  return *e->vars;
}

std::string toStr(E e, int depth) {
  static const char* names[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr",
    "eq","ult","ule","slt","sle","ite","zext","sext","extract","concat","fadd","fsub","fmul","fdiv","feq","flt","fle","fisnan","fabs",
    "fneg","ffloor","fceil","ftrunc","frint","fmin","fmax","fsqrt","uitofp","sitofp","fptoui","fptosi","fpext","fptrunc"};
  if (e->op == Op::Const) return e->big ? "big" : std::to_string(e->val);
  if (e->op == Op::Var) return gVars[e->val].name;
  if (depth == 0) return "...";
  std::string s = "(" + std::string(names[(int)e->op]);
  if (e->op == Op::Extract) s += "[" + std::to_string(e->val) + ":" + std::to_string(e->width) + "]";
  if (e->op == Op::ZExt || e->op == Op::SExt) s += std::to_string(e->width);
  for (int i = 0; i < e->nk; i++) s += " " + toStr(e->k[i], depth - 1);
  return s + ")";
}
}  // namespace sx
