// C21: batches of onions that are processed in place.
#include <string.h>
#include <memory>
#include <vector>
#include "DPPIR/types/containers.h"
#include "env.h"
using namespace DPPIR;

using Bytes = std::vector<uint8_t>;
static Bytes fresh(size_t n, int id, bool sym) {
  Bytes b(n);
  for (size_t i = 0; i < n; i++) b[i] = sym ? (uint8_t)sx_sym("byte", 8, 0, 255) : (uint8_t)(id * 29 + i * 3 + (i >> 8));
  return b;
}
static bool same(const char* p, const Bytes& b) {
  uint32_t d = 0;
  for (size_t i = 0; i < b.size(); i++) d |= (uint8_t)((uint8_t)p[i] ^ b[i]);
  return d == 0;
}
// an exact-size copy, so that any access outside is noticed
static std::unique_ptr<char[]> exact(const Bytes& b) {
  std::unique_ptr<char[]> c(new char[b.size()]);
  memcpy(c.get(), b.data(), b.size());
  return c;
}
// the life of a party's batch. args: short size, long size, noise, inputs, symbolic contents, swaps
extern "C" void h_batch() {
  size_t ss = sx_arg(0), ls = sx_arg(1);
  int noise = sx_arg(2), inputs = sx_arg(3);
  bool sym = sx_arg(4);
  int swaps = sx_arg(5);
  env_init();
  CipherBatch batch(ss, ls);
  for (int round = 0; round < 2; round++) {  // also when initialised again
    batch.Initialize(noise, inputs);
    std::vector<Bytes> out;
    std::vector<Bytes> in;
    SX_ASSERT(!batch.HasLong(), "C21: a new batch has onions to process");
    SX_ASSERT(batch.FullLong() == (inputs == 0), "C21: wrong idea of the number of onions expected");
    for (int i = 0; i < noise; i++) { out.push_back(fresh(ss, i, sym)); batch.PushShort(exact(out.back()).get()); }
    for (int i = 0; i < inputs; i++) {
      SX_ASSERT(!batch.FullLong(), "C21: batch is full too early");
      in.push_back(fresh(ls, 100 + i, sym));
      batch.PushLong(exact(in.back()).get());
    }
    SX_ASSERT(batch.FullLong(), "C21: batch is not full when all onions arrived");
    for (int i = 0; i < inputs; i++) {
      SX_ASSERT(batch.HasLong(), "C21: an onion is lost");
      char* p = batch.PopLong();
      SX_ASSERT(same(p, in[i]), "C21: an onion was overwritten before it was processed");
      // the inner onion is part of what was popped
      std::unique_ptr<char[]> inner(new char[ss]);
      memcpy(inner.get(), p + (ls - ss), ss);
      out.push_back(Bytes(in[i].begin() + (ls - ss), in[i].end()));
      batch.PushShort(inner.get());
    }
    SX_ASSERT(!batch.HasLong(), "C21: more onions than were pushed");
    for (int i = 0; i < (int)out.size(); i++) SX_ASSERT(same(batch.GetShort(i), out[i]), "C21: a processed or noise onion is not at its position");
    // any exchanges, as the shuffle makes them
    for (int k = 0; k < swaps && out.size() > 1; k++) {
      int a = sx_choice("a", 0, out.size() - 1), b = sx_choice("b", 0, out.size() - 1);
      std::unique_ptr<char[]> t(new char[ss]);
      memcpy(t.get(), batch.GetShort(a), ss);
      if (a != b) batch.SetShort(a, batch.GetShort(b));
      batch.SetShort(b, t.get());
      std::swap(out[a], out[b]);
    }
    int n = 0;
    for (char* c : batch) { SX_ASSERT(n < (int)out.size(), "C21: iteration goes beyond the batch"); SX_ASSERT(same(c, out[n]), "C21: iteration does not follow the positions"); n++; }
    SX_ASSERT(n == (int)out.size(), "C21: iteration ends too early");
    if (n) sx_note("first", (uint8_t)batch.GetShort(0)[0]);
    if (round == 0) batch.Free();
  }
  sx_cover("end");
}
// a batch that is filled by position only (cross-server shuffle). args: size, count, symbolic
extern "C" void h_scatter() {
  size_t ss = sx_arg(0);
  int n = sx_arg(1);
  bool sym = sx_arg(2);
  env_init();
  CipherBatch batch(ss, ss + 3);
  batch.Initialize(n, 0);
  std::vector<Bytes> want(n);
  std::vector<int> left;
  for (int i = 0; i < n; i++) left.push_back(i);
  for (int k = 0; k < n; k++) {
    int at = sx_choice("at", 0, left.size() - 1);
    int i = left[at];
    left.erase(left.begin() + at);
    want[i] = fresh(ss, i, sym);
    batch.SetShort(i, exact(want[i]).get());
  }
  int m = 0;
  for (char* c : batch) { SX_ASSERT(m < n, "C21: iteration goes beyond the batch"); SX_ASSERT(same(c, want[m]), "C21: iteration does not follow the positions"); m++; }
  SX_ASSERT(m == n, "C21: iteration ends too early");
  SX_ASSERT(batch.FullLong() && !batch.HasLong(), "C21: a scattered batch has onions to process");
  sx_cover("end");
}
