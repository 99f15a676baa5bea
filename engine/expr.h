// Symbolic bit-vector / floating-point expressions, hash-consed.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include "llvm/ADT/APInt.h"

namespace sx {
using llvm::APInt;

enum class Op : uint8_t {
  Const, Var,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat,
  // floating point; operands/results are IEEE bit patterns (width 32 or 64)
  FAdd, FSub, FMul, FDiv, FEq, FLt, FLe, FIsNaN, FAbs, FNeg, FFloor, FCeil,
  FTrunc, FRint, FMin, FMax, FSqrt, UIToFP, SIToFP, FPToUI, FPToSI, FPExt,
  FPTrunc,
};

struct Expr {
  Op op;
  uint8_t nk;
  uint16_t width;
  uint32_t id;
  const Expr* k[3];
  uint64_t val;        // Const value (<=64), Var index, Extract low bit
  const APInt* big;    // wide constants
  uint64_t lo, hi;     // unsigned interval, width <= 64
  bool fp;             // contains floating point operations
  mutable uint32_t evEpoch;
  mutable uint64_t ev;
  mutable const std::vector<uint32_t>* vars;  // memoised variable set
};
using E = const Expr*;

struct VarInfo {
  std::string name;
  unsigned width;
  uint64_t lo, hi;
};

extern std::vector<VarInfo> gVars;

inline uint64_t maskOf(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sext64(uint64_t v, unsigned w) {
  return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w);
}

E mkConst(uint64_t v, unsigned w);
E mkBig(const APInt& v);
E mkVar(const std::string& name, unsigned w, uint64_t lo, uint64_t hi);
E varByIndex(uint32_t idx);
E mkBin(Op op, E a, E b);
E mkSub(E a, E b);
E mkNot(E a);  // bitwise not
E mkIte(E c, E a, E b);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkFp1(Op op, E a, unsigned w);  // unary FP / conversions, result width w
E mkFp2(Op op, E a, E b);

inline bool isConst(E e) { return e->op == Op::Const; }
inline bool isTrue(E e) { return e->op == Op::Const && e->width == 1 && e->val == 1; }
inline bool isFalse(E e) { return e->op == Op::Const && e->width == 1 && e->val == 0; }
APInt constBig(E e);

// Model: values of variables.
using Model = std::vector<uint64_t>;  // indexed by var; missing -> VarInfo.lo
uint64_t evalExpr(E e, const Model& m);   // width <= 64
APInt evalBig(E e, const Model& m);
void bumpEvalEpoch();
const std::vector<uint32_t>& varsOf(E e);
std::string toStr(E e, int depth = 8);

uint64_t foldFp1(Op op, uint64_t a, unsigned wa, unsigned wr);
uint64_t foldFp2(Op op, uint64_t a, uint64_t b, unsigned w);
size_t exprCount();
}  // namespace sx
