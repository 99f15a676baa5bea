// Copy-on-write symbolic memory: address = (object id << 40) + offset.
#pragma once
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include "expr.h"

namespace sx {

struct Val {
  E e = nullptr;       // symbolic (or any value wider than 64 bits)
  uint64_t c = 0;      // concrete when e == nullptr
  Val() {}
  Val(uint64_t v) : e(nullptr), c(v) {}
  static Val sym(E x) {
    Val v;
    if (x->op == Op::Const && x->width <= 64) v.c = x->val; else v.e = x;
    return v;
  }
  bool conc() const { return e == nullptr; }
};
inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

constexpr unsigned ADDR_SHIFT = 40;
constexpr uint64_t OFF_MASK = (1ull << ADDR_SHIFT) - 1;
constexpr uint32_t FUNC_ID = 0xF00000;
constexpr unsigned CH = 256;

struct SymB { E e; uint32_t idx; };
struct Ext { uint8_t st[CH]; SymB sym[CH]; };  // st: 0 concrete, 1 symbolic, 2 uninitialised
struct Chunk {
  int rc = 1;
  Ext* ext = nullptr;
  uint8_t d[CH];
  ~Chunk() { delete ext; }
};
Chunk* zeroChunk();
Chunk* uninitChunk();
inline void unref(Chunk* c) { if (--c->rc == 0) delete c; }

enum class Kind : uint8_t { Stack, Heap, Global, ConstGlobal };
struct Obj {
  int rc = 1;
  uint64_t size = 0;
  Kind kind = Kind::Heap;
  std::vector<Chunk*> ch;
  const std::string* desc = nullptr;
  Obj() {}
  Obj(const Obj& o) : rc(1), size(o.size), kind(o.kind), ch(o.ch), desc(o.desc) { for (auto* c : ch) c->rc++; }
  ~Obj() { for (auto* c : ch) unref(c); }
  Chunk* w(size_t i) {
    Chunk*& c = ch[i];
    if (c->rc > 1) {
      Chunk* n = new Chunk();
      memcpy(n->d, c->d, CH);
      if (c->ext) n->ext = new Ext(*c->ext);
      c->rc--;
      c = n;
    }
    return c;
  }
};

struct ObjPage {
  static constexpr unsigned N = 256;
  int rc = 1;
  Obj* o[N] = {};
  ObjPage() {}
  ObjPage(const ObjPage& p) : rc(1) { for (unsigned i = 0; i < N; i++) { o[i] = p.o[i]; if (o[i]) o[i]->rc++; } }
  ~ObjPage() { for (auto* x : o) if (x && --x->rc == 0) delete x; }
};

class Memory {
 public:
  Memory() {}
  Memory(const Memory& m) : pages_(m.pages_), next_(m.next_), freeStack_(m.freeStack_) { for (auto* p : pages_) if (p) p->rc++; }
  ~Memory() { for (auto* p : pages_) if (p && --p->rc == 0) delete p; }
  Memory& operator=(const Memory&) = delete;
  const Obj* get(uint64_t id) const {
    size_t p = id / ObjPage::N;
    if (p >= pages_.size() || !pages_[p]) return nullptr;
    return pages_[p]->o[id % ObjPage::N];
  }
  Obj* getW(uint64_t id) {
    ObjPage* pg = pageW(id);
    Obj*& o = pg->o[id % ObjPage::N];
    if (o && o->rc > 1) { Obj* n = new Obj(*o); o->rc--; o = n; }
    return o;
  }
  uint64_t alloc(uint64_t size, Kind kind, bool zero, const std::string* desc);
  void release(uint64_t id);
  uint64_t addObj(Obj* o);  // takes ownership
  uint64_t count() const { return next_; }

 private:
  ObjPage* pageW(uint64_t id) {
    size_t p = id / ObjPage::N;
    if (p >= pages_.size()) pages_.resize(p + 1, nullptr);
    ObjPage*& pg = pages_[p];
    if (!pg) pg = new ObjPage();
    else if (pg->rc > 1) { ObjPage* n = new ObjPage(*pg); pg->rc--; pg = n; }
    return pg;
  }
  std::vector<ObjPage*> pages_;
  uint64_t next_ = 1;
  std::vector<uint32_t> freeStack_;
};

// Raw accessors (bounds already checked).
Val memLoad(Memory& m, uint64_t id, uint64_t off, unsigned nbytes);
void memStore(Memory& m, uint64_t id, uint64_t off, unsigned nbytes, const Val& v);
void memCopy(Memory& m, uint64_t did, uint64_t doff, uint64_t sid, uint64_t soff, uint64_t n);
void memSet(Memory& m, uint64_t id, uint64_t off, const Val& byte, uint64_t n);
}  // namespace sx
