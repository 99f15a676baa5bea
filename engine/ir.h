// Compact executable form of LLVM IR.
#pragma once
#include <set>
#include <cstdint>
#include <string>
#include <unordered_map>
#include <vector>
#include "mem.h"

namespace llvm { class Function; class Module; }
namespace sx {

enum class I : uint8_t {
  Bin, FBin, ICmp, FCmp, Fp1, Trunc, ZExt, SExt, Select, Mov, Gep, Load, Store, Alloca,
  Call, Br, CondBr, Switch, Ret, Unreachable, Trap, AtomicRMW, CmpXchg, Intr, DynExtract,
};

// Integer comparison predicates after normalisation.
enum Pred : uint8_t { EQ, NE, UGT, UGE, ULT, ULE, SGT, SGE, SLT, SLE };
enum class Intr : uint8_t {
  UMin, UMax, SMin, SMax, Abs, Ctpop, Ctlz, Cttz, BSwap, FShl, FShr, UAddO, USubO, UMulO, SAddO, SSubO, SMulO,
  USubSat, UAddSat, MemCpy, MemMove, MemSet, FMulAdd, IsConstant, Math1, Math2, BitReverse,
};

struct Inst {
  I op;
  uint8_t sub = 0;
  uint16_t w = 0;   // result or operand width
  uint16_t w2 = 0;  // source width
  int32_t dst = -1, a = 0, b = 0, c = 0;
  uint32_t aux = 0;
  uint32_t line = 0;
};

struct Edge { uint32_t pc = 0; uint32_t block = 0; std::vector<std::pair<int32_t, int32_t>> copies; };
struct GepInfo { int64_t off; std::vector<std::pair<int32_t, int64_t>> idx; std::vector<uint16_t> w; };
struct CallInfo {
  int32_t callee = -1;      // function index, or
  int32_t fp = 0;           // operand holding the function pointer
  std::vector<int32_t> args;
  std::vector<uint16_t> argw;
  std::vector<uint64_t> byval;  // per flattened arg: size to copy (0 = no)
  int32_t dst = -1;
  uint32_t nret = 0;
  uint16_t retw = 0;
  int32_t edge = -1;        // invoke: continue here
};
struct SwitchInfo { std::vector<std::pair<uint64_t, uint32_t>> cases; uint32_t def; };

struct Func {
  std::string name, pretty, file;
  std::set<std::string> inlined;  // DPPIR functions inlined into this one
  const llvm::Function* lf = nullptr;
  bool defined = false, lowered = false, executed = false;
  int builtin = -1;
  uint32_t nregs = 0;
  uint32_t nargs = 0;  // flattened
  std::vector<Inst> code;
  std::vector<Edge> edges;
  std::vector<GepInfo> geps;
  std::vector<CallInfo> calls;
  std::vector<SwitchInfo> switches;
  std::vector<std::vector<int32_t>> rets;
  std::vector<std::string> traps;
};
}  // namespace sx
