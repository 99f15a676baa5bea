#pragma once
#include <map>
#include <memory>
#include <unordered_map>
#include "ir.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Module.h"

namespace sx {
struct Leaf { uint64_t off; uint16_t w; };

class Program {
 public:
  explicit Program(llvm::Module& m);
  llvm::Module& mod;
  const llvm::DataLayout& dl;
  std::vector<std::unique_ptr<Func>> funcs;
  std::unordered_map<const llvm::Function*, int> funcIdx;
  std::unordered_map<std::string, int> byName;
  std::vector<Val> pool;
  std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr;
  Memory init;  // memory with the globals
  uint64_t fakeVtable = 0;

  void ensureLowered(Func& f);
  const std::vector<Leaf>& flat(llvm::Type* t);
  Val constVal(const llvm::Constant* c, unsigned lane);
  int32_t poolConst(uint64_t v);
  int32_t poolVal(const Val& v);
  uint64_t funcAddr(int idx) const { return ((uint64_t)FUNC_ID << ADDR_SHIFT) + (uint64_t)idx * 16; }
  int funcOf(const llvm::Function* f);

 private:
  std::unordered_map<llvm::Type*, std::vector<Leaf>> flatCache_;
  std::unordered_map<uint64_t, int32_t> poolIdx_;
  void flatten(llvm::Type* t, uint64_t off, std::vector<Leaf>& out);
  void writeInit(uint64_t id, uint64_t off, const llvm::Constant* c);
};
}  // namespace sx
