#include "mem.h"

#include <algorithm>

namespace sx {
Chunk* zeroChunk() {
  static Chunk* c = nullptr;
  if (!c) { c = new Chunk(); memset(c->d, 0, CH); c->rc = 1; }
  c->rc++;
  return c;
}
Chunk* uninitChunk() {
  static Chunk* c = nullptr;
  if (!c) { c = new Chunk(); memset(c->d, 0, CH); c->ext = new Ext(); memset(c->ext->st, 2, CH); c->rc = 1; }
  c->rc++;
  return c;
}
uint64_t Memory::alloc(uint64_t size, Kind kind, bool zero, const std::string* desc) {
  Obj* o = new Obj();
  o->size = size; o->kind = kind; o->desc = desc;
  o->ch.resize((size + CH - 1) / CH);
  for (auto& c : o->ch) c = zero ? zeroChunk() : uninitChunk();
  uint64_t id;
  if (kind == Kind::Stack && !freeStack_.empty()) { id = freeStack_.back(); freeStack_.pop_back(); }
  else id = next_++;
  pageW(id)->o[id % ObjPage::N] = o;
  return id;
}
uint64_t Memory::addObj(Obj* o) {
  uint64_t id = next_++;
  pageW(id)->o[id % ObjPage::N] = o;
  return id;
}
void Memory::release(uint64_t id) {
  Obj*& o = pageW(id)->o[id % ObjPage::N];
  if (!o) return;
  bool st = o->kind == Kind::Stack;
  if (--o->rc == 0) delete o;
  o = nullptr;
  if (st) freeStack_.push_back(id);
}

static uint32_t gUninit = 0;
static E freshUninit(unsigned w) { return mkVar("uninit" + std::to_string(gUninit++), w, 0, maskOf(w)); }

Val memLoad(Memory& m, uint64_t id, uint64_t off, unsigned n) {
  const Obj* o = m.get(id);
  size_t ci = off / CH, co = off % CH;
  if (n <= 8 && co + n <= CH) {
    Chunk* c = o->ch[ci];
    if (!c->ext) { uint64_t v = 0; memcpy(&v, c->d + co, n); return Val(v); }
    const uint8_t* st = c->ext->st + co;
    bool anyS = false;
    for (unsigned i = 0; i < n; i++) anyS |= st[i] != 0;
    if (!anyS) { uint64_t v = 0; memcpy(&v, c->d + co, n); return Val(v); }
    if (st[0] == 1) {
      const SymB* s = c->ext->sym + co;
      E e = s[0].e;
      if (s[0].idx == 0 && e->width == n * 8) {
        bool same = true;
        for (unsigned i = 1; i < n; i++) if (st[i] != 1 || s[i].e != e || s[i].idx != i) { same = false; break; }
        if (same) return Val::sym(e);
      }
    }
  }
  // Uninitialised bytes get a value when first read; the value then stays.
  for (unsigned i = 0; i < n; i++) {
    size_t p = off + i;
    const Chunk* c = m.get(id)->ch[p / CH];
    if (c->ext && c->ext->st[p % CH] == 2) {
      Chunk* w = m.getW(id)->w(p / CH);
      w->ext->st[p % CH] = 1;
      w->ext->sym[p % CH] = {freshUninit(8), 0};
    }
  }
  o = m.get(id);
  E r = nullptr;
  unsigned i = 0;
  while (i < n) {
    size_t p = off + i;
    const Chunk* c = o->ch[p / CH];
    E piece;
    unsigned len = 1;
    if (!c->ext || c->ext->st[p % CH] == 0) piece = mkConst(c->d[p % CH], 8);
    else {
      const SymB& s = c->ext->sym[p % CH];
      while (i + len < n) {
        size_t q = off + i + len;
        const Chunk* c2 = o->ch[q / CH];
        if (!c2->ext || c2->ext->st[q % CH] != 1 || c2->ext->sym[q % CH].e != s.e || c2->ext->sym[q % CH].idx != s.idx + len) break;
        len++;
      }
      piece = mkExtract(s.e, s.idx * 8, len * 8);
    }
    r = r ? mkConcat(piece, r) : piece;
    i += len;
  }
  return Val::sym(r);
}

void memStore(Memory& m, uint64_t id, uint64_t off, unsigned n, const Val& v) {
  Obj* o = m.getW(id);
  if (v.conc() && n <= 8) {
    size_t ci = off / CH, co = off % CH;
    if (co + n <= CH) {
      Chunk* c = o->w(ci);
      memcpy(c->d + co, &v.c, n);
      if (c->ext) memset(c->ext->st + co, 0, n);
      return;
    }
    for (unsigned i = 0; i < n; i++) {
      Chunk* c = o->w((off + i) / CH);
      c->d[(off + i) % CH] = (uint8_t)(v.c >> (8 * i));
      if (c->ext) c->ext->st[(off + i) % CH] = 0;
    }
    return;
  }
  E e = toE(v, n * 8);
  if (e->width != n * 8) e = mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; i++) {
    Chunk* c = o->w((off + i) / CH);
    unsigned p = (off + i) % CH;
    E b = e; uint32_t idx = i;
    if (e->op == Op::Const || e->op == Op::Concat || e->op == Op::ZExt || e->op == Op::Extract) {
      b = mkExtract(e, i * 8, 8); idx = 0;
      if (b->op == Op::Const) { c->d[p] = (uint8_t)b->val; if (c->ext) c->ext->st[p] = 0; continue; }
      if (b->op == Op::Extract && b->val % 8 == 0 && b->k[0]->width % 8 == 0) { idx = b->val / 8; b = b->k[0]; }
    }
    if (!c->ext) { c->ext = new Ext(); memset(c->ext->st, 0, CH); }
    c->ext->st[p] = 1;
    c->ext->sym[p] = {b, idx};
  }
}

void memCopy(Memory& m, uint64_t did, uint64_t doff, uint64_t sid, uint64_t soff, uint64_t n) {
  if (n == 0) return;
  // gather then scatter, handles overlap
  struct B { uint8_t d, st; SymB s; };
  std::vector<B> tmp;
  const Obj* so = m.get(sid);
  bool plain = true;
  for (uint64_t p = soff / CH; p <= (soff + n - 1) / CH; p++) plain &= so->ch[p]->ext == nullptr;
  if (plain) {
    std::vector<uint8_t> buf(n);
    for (uint64_t i = 0; i < n;) {
      uint64_t p = soff + i, k = std::min<uint64_t>(CH - p % CH, n - i);
      memcpy(&buf[i], so->ch[p / CH]->d + p % CH, k);
      i += k;
    }
    Obj* o = m.getW(did);
    for (uint64_t i = 0; i < n;) {
      uint64_t p = doff + i, k = std::min<uint64_t>(CH - p % CH, n - i);
      Chunk* c = o->w(p / CH);
      memcpy(c->d + p % CH, &buf[i], k);
      if (c->ext) memset(c->ext->st + p % CH, 0, k);
      i += k;
    }
    return;
  }
  tmp.resize(n);
  for (uint64_t i = 0; i < n; i++) {
    const Chunk* c = so->ch[(soff + i) / CH];
    unsigned p = (soff + i) % CH;
    tmp[i].d = c->d[p];
    tmp[i].st = c->ext ? c->ext->st[p] : 0;
    if (tmp[i].st == 1) tmp[i].s = c->ext->sym[p];
  }
  Obj* o = m.getW(did);
  for (uint64_t i = 0; i < n; i++) {
    Chunk* c = o->w((doff + i) / CH);
    unsigned p = (doff + i) % CH;
    c->d[p] = tmp[i].d;
    if (tmp[i].st) {
      if (!c->ext) { c->ext = new Ext(); memset(c->ext->st, 0, CH); }
      c->ext->st[p] = tmp[i].st;
      c->ext->sym[p] = tmp[i].s;
    } else if (c->ext) c->ext->st[p] = 0;
  }
}
void memSet(Memory& m, uint64_t id, uint64_t off, const Val& byte, uint64_t n) {
  if (n == 0) return;
  Obj* o = m.getW(id);
  if (!byte.conc()) {
    for (uint64_t i = 0; i < n; i++) memStore(m, id, off + i, 1, byte);
    return;
  }
  for (uint64_t i = 0; i < n;) {
    uint64_t p = off + i, k = std::min<uint64_t>(CH - p % CH, n - i);
    if (k == CH && byte.c == 0) { unref(o->ch[p / CH]); o->ch[p / CH] = zeroChunk(); i += k; continue; }
    Chunk* c = o->w(p / CH);
    memset(c->d + p % CH, (int)byte.c, k);
    if (c->ext) memset(c->ext->st + p % CH, 0, k);
    i += k;
  }
}
}  // namespace sx
