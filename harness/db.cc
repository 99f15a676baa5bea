// C18: database.
#include <string.h>
#include "DPPIR/types/database.h"
#include "DPPIR/types/types.h"
#include "env.h"
using namespace DPPIR;
static bool row_ok(const Response& r, uint32_t key) {
  bool ok = r.value == 2 * key;
  for (size_t i = 0; i < r.sig.size(); i++) ok &= (uint8_t)r.sig[i] == key % 128;
  return ok;
}
// arg0 = rows: every key (symbolic)
extern "C" void h_rows() {
  index_t n = sx_arg(0);
  env_init();
  Database a(n), b(n), c(n + 3);
  SX_ASSERT(a.Size() == n, "C18: wrong number of rows");
  DPPIR::key_t k = sx_sym("key", 32, 0, n - 1);
  if (sx_arg(1)) k = sx_fork(k);
  const Response &x = a.Lookup(k), &y = b.Lookup(k), &z = c.Lookup(k);
  SX_ASSERT(row_ok(x, k), "C18: row contents");
  SX_ASSERT(memcmp(&x, &y, sizeof(Response)) == 0, "C18: two databases of the same size differ");
  SX_ASSERT(memcmp(&x, &z, sizeof(Response)) == 0, "C18: row contents depend on the database size");
  Database d(std::move(a));
  SX_ASSERT(d.Size() == n && row_ok(d.Lookup(k), k), "C18: moved database lost its rows");
  sx_note("value", x.value);
  sx_cover("end");
}
extern "C" void h_rows_all() {
  index_t n = sx_arg(0);
  env_init();
  Database a(n);
  for (index_t k = 0; k < n; k++) SX_ASSERT(row_ok(a.Lookup(k), k), "C18: row contents");
  sx_cover("end");
}
extern "C" void h_random_row() {
  index_t n = sx_arg(0);
  env_init();
  Database a(n);
  DPPIR::key_t k = a.RandomRow(), k2 = a.RandomRow();
  SX_ASSERT(k < n && k2 < n, "C18: random row outside the database");
  if (n > 1) {
    SX_ASSERT(W->ndraw == 2 && W->draw[0].bound == n && W->draw[1].bound == n, "C18: random rows are not drawn fresh over all rows");
  }
  sx_goal_ids("row", n);
  sx_cover_id("row", k);
  sx_cover("end");
}
extern "C" void h_equal_rows() {
  env_init();
  Response a, b;
  uint8_t *p = (uint8_t*)&a, *q = (uint8_t*)&b;
  uint32_t va = sx_sym("va", 32, 0, 0xffffffffu), vb = sx_sym("vb", 32, 0, 0xffffffffu);
  memcpy(p, &va, 4);
  memcpy(q, &vb, 4);
  bool same = va == vb;
  for (size_t i = 4; i < sizeof(Response); i++) {
    p[i] = sx_sym("a", 8, 0, 255);
    q[i] = sx_sym("b", 8, 0, 255);
    same &= p[i] == q[i];
  }
  bool eq = a == b, ne = a != b;
  SX_ASSERT(eq == same, "C18: rows compare equal although they differ, or the reverse");
  SX_ASSERT(ne == !same, "C18: != disagrees with ==");
  sx_note("eq", eq);
  sx_cover("end");
}
