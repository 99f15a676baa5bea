// C09, C10: incremental shares. C11: additive masks.
#include <string.h>
#include <vector>
#include "DPPIR/sharing/additive.h"
#include "DPPIR/sharing/incremental.h"
#include "env.h"
using namespace DPPIR;
using namespace DPPIR::sharing;
static const uint32_t P = INCREMENTAL_PRIME;

// C09. arg0 = n, arg1..n = multipliers y; arg(n+1) = mask of the symbolic x (others fixed); key symbolic
static void tally(int n, const uint32_t* y, unsigned mask, uint32_t other) {
  std::vector<incremental_share_t> sh;
  for (int i = 0; i < n; i++) {
    incremental_share_t s;
    s.x = (mask >> i & 1) ? (uint32_t)sx_sym("x", 32, 0, P - 1) : (uint32_t)(((uint64_t)(i + 1) * other) % P);
    s.y = y[i];
    sh.push_back(s);
  }
  uint32_t key = sx_sym("key", 32, 0, P - 1);
  incremental_tally_t t = GenerateIncrementalTally(key, sh);
  SX_ASSERT(t < P, "C09: tally not below the prime");
  sx_note("tally", t);
  for (int i = 0; i < n; i++) {
    t = IncrementalReconstruct(t, sh[i]);
    SX_ASSERT(t < P, "C09: intermediate tally not below the prime");
  }
  sx_note("result", t);
  SX_ASSERT(t == key, "C09: shares do not reconstruct the key");
  sx_cover("end");
}
extern "C" void h_tally() {
  int n = sx_arg(0);
  env_init();
  uint32_t y[8];
  for (int i = 0; i < n; i++) y[i] = sx_arg(1 + i);
  tally(n, y, sx_arg(n + 1), 1234567891u);
}
// one party, every multiplier of arg0..arg0+arg1-1, every key and x
extern "C" void h_tally_ys() {
  env_init();
  uint32_t y = sx_choice("y", sx_arg(0), sx_arg(0) + sx_arg(1) - 1);
  tally(1, &y, 1, 0);
}
// the number of parties is not special: preshares as PreIncrementalSecretShares makes them
extern "C" void h_tally_drawn() {
  int n = sx_arg(0);
  env_init();
  env_uniform_cb = [](uint32_t bound) -> uint32_t {  // the first two additive draws symbolic, the rest fixed
    static uint32_t c, x;
    c++;
    if (bound == P && x++ < 2) return (uint32_t)sx_sym("draw", 32, 0, bound - 1);
    return (uint32_t)((c * 0x9E3779B97F4A7C15ull >> 20) % bound);
  };
  std::vector<incremental_share_t> sh = PreIncrementalSecretShares(n);
  SX_ASSERT((int)sh.size() == n, "C09: wrong number of preshares");
  uint32_t key = sx_sym("key", 32, 0, P - 1);
  incremental_tally_t t = GenerateIncrementalTally(key, sh);
  for (int i = 0; i < n; i++) t = IncrementalReconstruct(t, sh[i]);
  sx_note("result", t);
  SX_ASSERT(t == key, "C09: shares do not reconstruct the key");
  sx_cover("end");
}
// every preshare the generator can produce is in the range for which h_tally shows reconstruction
extern "C" void h_drawn_range() {
  int n = sx_arg(0);
  env_init();
  std::vector<incremental_share_t> sh = PreIncrementalSecretShares(n);
  SX_ASSERT((int)sh.size() == n, "C09: wrong number of preshares");
  for (int i = 0; i < n; i++) {
    sx_note("x", sh[i].x);
    sx_note("y", sh[i].y);
    SX_ASSERT(sh[i].x < P, "C09: additive part of a preshare is not below the prime");
    SX_ASSERT((sh[i].y > 0) & (sh[i].y < P), "C09: a multiplier can be zero or not below the prime: such shares do not reconstruct the key");
  }
  sx_cover("end");
}
// telling values of one draw at a time, the others fixed; every key
extern "C" void h_tally_edges() {
  int n = sx_arg(0);
  env_init();
  static int which, what;
  static uint32_t c;
  c = 0;
  which = sx_choice("which", 0, 2 * n - 1);
  what = sx_choice("what", 0, 5);
  env_uniform_cb = [](uint32_t bound) -> uint32_t {
    if ((int)c++ == which) return what == 0 ? 0 : what == 1 ? 1 : what == 2 ? bound - 1 : what == 3 ? bound - 2 : what == 4 ? bound / 2 : bound / 2 + 1;
    return (uint32_t)((c * 0x9E3779B97F4A7C15ull >> 20) % bound);
  };
  std::vector<incremental_share_t> sh = PreIncrementalSecretShares(n);
  uint32_t key = sx_sym("key", 32, 0, P - 1);
  incremental_tally_t t = GenerateIncrementalTally(key, sh);
  for (int i = 0; i < n; i++) t = IncrementalReconstruct(t, sh[i]);
  sx_note("result", t);
  SX_ASSERT(t == key, "C09: shares do not reconstruct the key");
  sx_cover("end");
}

// C10: the preshares are a one-to-one image of uniform draws of the right sizes.
extern "C" void h_uniform() {
  int n = sx_arg(0);
  env_init();
  std::vector<incremental_share_t> a = PreIncrementalSecretShares(n);
  int na = W->ndraw;
  std::vector<incremental_share_t> b = PreIncrementalSecretShares(n);
  int nb = W->ndraw - na;
  SX_ASSERT((int)a.size() == n && (int)b.size() == n, "C10: wrong number of preshares");
  SX_ASSERT(na == 2 * n && nb == 2 * n, "C10: preshares are not drawn fresh for every party and query");
  int px = 0, py = 0;
  for (int i = 0; i < na; i++) {
    px += W->draw[i].bound == P;
    py += W->draw[i].bound == P - 1;
    SX_ASSERT(W->draw[i].bound == W->draw[na + i].bound, "C10: ranges differ between queries");
  }
  SX_ASSERT(px == n && py == n, "C10: preshares are not drawn over their full range");
  bool same = true, sameDraws = true;
  for (int i = 0; i < n; i++) {
    SX_ASSERT(a[i].x < P, "C10: x out of range");
    SX_ASSERT(a[i].y > 0 && a[i].y < P, "C10: multiplier out of range or zero");
    same &= (a[i].x == b[i].x) & (a[i].y == b[i].y);
    sx_note("x", a[i].x);
    sx_note("y", a[i].y);
  }
  for (int i = 0; i < na; i++) sameDraws &= W->draw[i].val == W->draw[na + i].val;
  // equal preshares only from equal randomness: with |range| = |source| every value is equally likely
  SX_ASSERT(!same | sameDraws, "C10: some preshare values are more likely than others");
  sx_cover("end");
}

// C10: without party j's preshare the tally says nothing: for every key, the tally (whose range is as
// large as that of x_j) determines x_j, so every tally arises from exactly one x_j per key and
// multiplier, whatever the key. arg0 = n, arg1 = j, arg2.. = y
extern "C" void h_hide() {
  int n = sx_arg(0), j = sx_arg(1);
  env_init();
  std::vector<incremental_share_t> sh(n), down;
  for (int i = 0; i < n; i++) {
    sh[i].x = i == j ? (uint32_t)sx_sym("x", 32, 0, P - 1) : (uint32_t)(((uint64_t)(i + 1) * 987654321u) % P);
    sh[i].y = sx_arg(2 + i);
    if (i > j) down.push_back(sh[i]);
  }
  uint32_t key = sx_sym("key", 32, 0, P - 1);
  uint32_t t = GenerateIncrementalTally(key, sh);
  SX_ASSERT(t < P, "C10: tally not below the prime");
  sx_note("t", t);
  for (int i = 0; i < j; i++) t = IncrementalReconstruct(t, sh[i]);
  uint32_t d = GenerateIncrementalTally(key, down);
  incremental_share_t zero;
  zero.x = 0;
  zero.y = sh[j].y;
  uint32_t z = IncrementalReconstruct(t, zero);
  SX_ASSERT(d < P && z < P, "C10: tally not below the prime");
  uint64_t x = ((uint64_t)d + P - z) % P;
  SX_ASSERT(x == sh[j].x, "C10: some tallies are more likely for some keys although a preshare is missing");
  sx_cover("end");
}

// ---------------------------------------------------------------- C11
extern "C" void h_masks() {
  size_t n = sx_arg(0);
  env_init();
  std::vector<preshare_t> s = GenerateAdditiveSecretShares(n);
  SX_ASSERT(s.size() == n, "C11: wrong number of mask shares");
  Response r, orig, out;
  uint8_t* p = (uint8_t*)&r;
  for (size_t i = 0; i < sizeof(Response); i++) p[i] = sx_sym("row", 8, 0, 255);
  orig = r;
  // separate target, then in place
  out = r;
  for (size_t i = 0; i < n; i++) {
    Response t;
    memset((void*)&t, 0xEE, sizeof t);
    AdditiveReconstruct(out, s[i], &t);
    out = t;
    AdditiveReconstruct(r, s[i], &r);
  }
  const uint8_t *a = (const uint8_t*)&out, *b = (const uint8_t*)&r, *o = (const uint8_t*)&orig;
  bool ok1 = true, ok2 = true;
  for (size_t i = 0; i < sizeof(Response); i++) { ok1 &= a[i] == o[i]; ok2 &= b[i] == o[i]; }
  SX_ASSERT(ok1, "C11: masks do not cancel");
  SX_ASSERT(ok2, "C11: masks do not cancel in place");
  for (size_t i = 0; i < 4; i++) sx_note("share", (uint8_t)s[n - 1][i * 16]);
  sx_cover("end");
}
// one masking step is exactly the XOR with every byte of the share
extern "C" void h_mask_step() {
  env_init();
  preshare_t m;
  Response r, t;
  uint8_t in[sizeof(Response)];
  for (size_t i = 0; i < sizeof(Response); i++) { in[i] = sx_sym("row", 8, 0, 255); ((uint8_t*)&r)[i] = in[i]; }
  for (size_t i = 0; i < m.size(); i++) m[i] = (char)sx_sym("mask", 8, 0, 255);
  memset((void*)&t, 0x11, sizeof t);
  AdditiveReconstruct(r, m, &t);
  bool inj = true, keep = true;
  uint32_t left = 0;
  for (size_t i = 0; i < sizeof(Response); i++) {
    inj &= ((uint8_t*)&t)[i] == (uint8_t)(in[i] ^ (uint8_t)m[i]);
    keep &= ((uint8_t*)&r)[i] == in[i];
    left += ((uint8_t*)&t)[i] == in[i];
  }
  SX_ASSERT(inj, "C11: a byte of the response is not masked by its share byte");
  SX_ASSERT(keep, "C11: masking modified its input");
  sx_cover("end");
}
static size_t drawn_bytes;
static std::vector<uint8_t>* drawn_log;
static void log_randbuf(uint8_t* b, size_t n) {
  for (size_t i = 0; i < n; i++) { b[i] = sx_sym("randbyte", 8, 0, 255); drawn_log->push_back(b[i]); }
  drawn_bytes += n;
}
// any n-1 of the n shares are a one-to-one image of (n-1)*52 fresh random bytes
extern "C" void h_masks_uniform() {
  size_t n = sx_arg(0), miss = sx_arg(1);
  env_init();
  env_randbuf_cb = log_randbuf;
  std::vector<uint8_t> da, db;
  drawn_log = &da;
  drawn_bytes = 0;
  std::vector<preshare_t> a = GenerateAdditiveSecretShares(n);
  size_t na = drawn_bytes;
  drawn_log = &db;
  drawn_bytes = 0;
  std::vector<preshare_t> b = GenerateAdditiveSecretShares(n);
  SX_ASSERT(na == (n - 1) * sizeof(preshare_t) && drawn_bytes == na, "C11: masks are not drawn fresh over every byte");
  bool same = true, sd = true;
  for (size_t i = 0; i < n; i++)
    if (i != miss)
      for (size_t k = 0; k < a[i].size(); k++) same &= a[i][k] == b[i][k];
  for (size_t i = 0; i < na && i < db.size(); i++) sd &= da[i] == db[i];
  SX_ASSERT(!same | sd, "C11: a set of shares missing one is not uniform");
  sx_cover("end");
}
