// C21: a batch of any size gets the memory it needs, and positions in it are computed without
// wrapping. The allocation is only looked at, not made: it may be huge.
#include <stdlib.h>
#include <string.h>
#include <memory>
#include <vector>
#include "DPPIR/types/containers.h"
#include "env.h"
using namespace DPPIR;

static bool WATCH;
static uint64_t NEED[3];  // the whole, or its parts
static void* get(size_t n) {
  if (WATCH) {
    WATCH = false;
    sx_note("bytes", n);
    SX_ASSERT((n >= NEED[0]) | (n == NEED[1]) | (n == NEED[2]), "C21: less memory is set aside for a batch than its messages need");
    sx_cover("end");
    sx_exit_path();
  }
  return malloc(n ? n : 1);
}
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, std::align_val_t) { return get(n); }
void* operator new[](size_t n, std::align_val_t) { return get(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

// args: short size, long size
extern "C" void h_bytes_ciphers() {
  size_t ss = sx_arg(0), ls = sx_arg(1);
  env_init();
  uint32_t noise = sx_sym("noise", 32, 0, 0xffffffffu), inputs = sx_sym("inputs", 32, 0, 0xffffffffu);
  // parts of their own are fine; small helpers are not looked at
  NEED[0] = noise * (uint64_t)ss + inputs * (uint64_t)ls;
  NEED[1] = noise * (uint64_t)ss;
  NEED[2] = inputs * (uint64_t)ls;
  sx_assume(NEED[0] > 4096);
  CipherBatch batch(ss, ls);
  sx_abort_ok(1);  // refusing is fine
  WATCH = true;
  batch.Initialize(noise, inputs);
  WATCH = false;
  sx_fail("C21: no memory is set aside for a batch");
}
template <class T> static void batch_bytes() {
  uint32_t n = sx_sym("messages", 32, 200, 0xffffffffu);
  NEED[0] = NEED[1] = NEED[2] = n * (uint64_t)sizeof(T);
  Batch<T> b;
  sx_abort_ok(1);
  WATCH = true;
  b.Initialize(n);
  WATCH = false;
  sx_fail("C21: no memory is set aside for a batch");
}
// args: kind of message
extern "C" void h_bytes_batch() {
  env_init();
  switch (sx_arg(0)) {
    case 0: return batch_bytes<Query>();
    case 1: return batch_bytes<Response>();
    default: return batch_bytes<uint32_t>();
  }
}
// where onion or message number i lies, for any i; not followed. args: short size, long size
extern "C" void h_positions() {
  size_t ss = sx_arg(0), ls = sx_arg(1);
  env_init();
  CipherBatch batch(ss, ls);
  batch.Initialize(2, 2);
  Batch<Query> q;
  q.Initialize(2);
  Batch<Response> r;
  r.Initialize(2);
  uint32_t i = sx_sym("index", 32, 0, 0xffffffffu);
  sx_abort_ok(1);
  SX_ASSERT((uint64_t)batch.GetShort(i) - (uint64_t)batch.GetShort(0) == (uint64_t)i * ss, "C21: an onion is looked for at another position");
  SX_ASSERT((uint64_t)&q[i] - (uint64_t)&q[0] == (uint64_t)i * sizeof(Query), "C21: a message is looked for at another position");
  SX_ASSERT((uint64_t)&r[i] - (uint64_t)&r[0] == (uint64_t)i * sizeof(Response), "C21: a message is looked for at another position");
  sx_abort_ok(0);
  sx_cover("end");
}
