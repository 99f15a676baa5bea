// C06 / C07: the party-local shuffle.
#include <vector>
#include "DPPIR/shuffle/local_shuffle.h"
#include "DPPIR/shuffle/util.h"
#include "env.h"
using namespace DPPIR;

static const int SEED = 77;

// C06: n = arg0; arg1: 1 = the random stream is symbolic. Any stream: bijection, inverse, repeatable.
extern "C" void h_perm() {
  index_t n = sx_arg(0);
  env_init();
  if (sx_arg(1)) env_symbolic_seed(SEED);
  shuffle::LocalShuffler a(SEED), b(SEED);
  a.Initialize(n);
  std::vector<index_t> f(n), back(n);
  std::vector<uint8_t> hit(n, 0);
  for (index_t i = 0; i < n; i++) {
    index_t s = a.Shuffle(i);
    SX_ASSERT(s < n, "C06: shuffled position outside the batch");
    SX_ASSERT(!hit[s], "C06: two messages shuffled to the same position");
    hit[s] = 1;
    f[i] = s;
    SX_ASSERT(a.Deshuffle(s) == i, "C06: deshuffling a shuffled position does not give it back");
    if (n <= 16) sx_note("shuffled", s);
  }
  for (index_t i = 0; i < n; i++) {
    index_t d = a.Deshuffle(i);
    SX_ASSERT(d < n, "C06: deshuffled position outside the batch");
    back[i] = d;
    SX_ASSERT(a.Shuffle(d) == i, "C06: shuffling a deshuffled position does not give it back");
  }
  // same seed, same size, another shuffler, with an unrelated one initialised in between
  shuffle::LocalShuffler other(SEED + 1);
  other.Initialize(n);
  b.Initialize(n);
  for (index_t i = 0; i < n; i++) {
    SX_ASSERT(b.Shuffle(i) == f[i], "C06: same seed and size give different permutations");
    SX_ASSERT(b.Deshuffle(i) == back[i], "C06: same seed and size give different inverses");
  }
  // again, also after another size and after the maps were released
  b.FinishForward();
  b.FinishBackward();
  b.Initialize(n / 2);
  b.Initialize(n);
  for (index_t i = 0; i < n; i++) {
    SX_ASSERT(b.Shuffle(i) == f[i], "C06: initialising again gives a different permutation");
    SX_ASSERT(b.Deshuffle(i) == back[i], "C06: initialising again gives a different inverse");
  }
  // forward map released: the way back still works (that is how the parties use it)
  a.FinishForward();
  for (index_t i = 0; i < n; i++) SX_ASSERT(a.Deshuffle(f[i]) == i, "C06: the way back is lost after the forward pass");
  // and so do both after the next initialisation: the offline stage never goes back
  for (int again = 0; again < 2; again++) {
    a.Initialize(n);
    for (index_t i = 0; i < n; i++) SX_ASSERT(a.Shuffle(i) == f[i] && a.Deshuffle(i) == back[i], "C06: initialising again gives a different permutation");
    if (again == 0) a.FinishBackward();
  }
  sx_cover("end");
}

// C07: the bounded draw. arg0 = range; arg1: 0 only range and reachability,
// 1 = equals the scaled draw, 2 = equals the remainder (either one is unbiased).
extern "C" void h_bounded() {
  uint32_t n = sx_arg(0);
  env_init();
  env_symbolic_seed(SEED);
  shuffle::util::seed(SEED);
  uint32_t v = shuffle::util::random_bounded(n);
  SX_ASSERT(v < n, "C07: drawn index outside the range");
  sx_note("drawn", v);
  uint32_t r = W->stream[0]->v[0];
  if (sx_arg(1) == 1) SX_ASSERT(v == (uint32_t)(((uint64_t)r * n) >> 31), "C07: not the scaled draw");
  if (sx_arg(1) == 2) SX_ASSERT(v == r % n, "C07: not the remainder draw");
  if (sx_arg(1) == 0) {
    sx_goal_ids("index", n);
    sx_cover_id("index", v);
  }
  sx_cover("end");
}
// Large ranges: both ends of the range can be drawn.
extern "C" void h_bounded_ends() {
  uint32_t n = sx_arg(0);
  env_init();
  env_symbolic_seed(SEED);
  shuffle::util::seed(SEED);
  uint32_t v = shuffle::util::random_bounded(n);
  SX_ASSERT(v < n, "C07: drawn index outside the range");
  sx_goal("low");
  sx_goal("high");
  sx_goal("middle");
  sx_cover_if(v < n / 4, "low");
  sx_cover_if(v >= n - n / 4, "high");
  sx_cover_if(v >= n / 2 - n / 8 && v < n / 2 + n / 8, "middle");
}

static const int FACT[] = {1, 1, 2, 6, 24, 120, 720};
static uint64_t perm_id(shuffle::LocalShuffler& a, index_t n) {
  uint64_t id = 0;
  index_t p[8];
  for (index_t i = 0; i < n; i++) p[i] = a.Shuffle(i);
  for (index_t i = 0; i < n; i++) {
    int c = 0;
    for (index_t j = i + 1; j < n; j++) c += p[j] < p[i];
    id += c * FACT[n - 1 - i];
  }
  return id;
}
// every permutation is reachable
extern "C" void h_allperms() {
  index_t n = sx_arg(0);
  env_init();
  env_symbolic_seed(SEED);
  shuffle::LocalShuffler a(SEED);
  a.Initialize(n);
  sx_goal_ids("perm", FACT[n]);
  sx_cover_id("perm", perm_id(a, n));
}
// all equally likely: the random source is reduced to L equidistant values (L = lcm(1..n)) that are
// uniform for every range up to n; each permutation must come from equally many streams.
extern "C" void h_equal() {
  index_t n = sx_arg(0);
  uint32_t L = n <= 2 ? 2 : n == 3 ? 6 : 12;
  env_init();
  Stream* st = (Stream*)sx_shared_alloc(sizeof(Stream));
  st->seed = SEED;
  st->sym = 1;
  st->n = 0;
  W->stream[W->nstream++] = st;
  for (index_t i = 0; i < 6; i++) {
    uint32_t j = i < n - 1 ? (uint32_t)sx_choice("level", 0, L - 1) : 0;
    uint32_t base = (uint32_t)(((uint64_t)j << 31) / L) + 1;
    uint32_t r = base + (j + L - base % L) % L;
    st->v[i] = r;
    st->n = i + 1;
  }
  shuffle::LocalShuffler a(SEED);
  a.Initialize(n);
  sx_note("perm", perm_id(a, n));
  sx_cover_id("perm", perm_id(a, n));
}

// Large batches (n = arg0): messages at the ends and in the middle go to any part of the batch for some stream,
// and any part of the batch is reached from any other. 40 streams; a healthy shuffle misses one of these
// with probability < 1e-10.
static const int FAR_SEEDS = 40;
static void far_cover(index_t n, int seed) {
  static const char* const name[3][3] = {{"first stays low", "first goes to the middle", "first goes high"}, {"middle goes low", "middle stays", "middle goes high"}, {"last goes low", "last goes to the middle", "last stays high"}};
  static const char* const back[3][3] = {{"front from low", "front from the middle", "front from high"}, {"centre from low", "centre from the middle", "centre from high"}, {"end from low", "end from the middle", "end from high"}};
  shuffle::LocalShuffler a(seed * 1000003 + 5);
  a.Initialize(n);
  index_t at[3] = {0, n / 2, n - 1};
  for (int i = 0; i < 3; i++) {
    uint64_t f = (uint64_t)a.Shuffle(at[i]) * 3 / n, b = (uint64_t)a.Deshuffle(at[i]) * 3 / n;
    if (f < 3) sx_cover(name[i][f]);
    if (b < 3) sx_cover(back[i][b]);
  }
}
extern "C" void h_far() {
  index_t n = sx_arg(0);
  env_init();
  for (const char* g : {"first stays low", "first goes to the middle", "first goes high", "middle goes low", "middle stays", "middle goes high", "last goes low", "last goes to the middle", "last stays high", "front from low", "front from the middle", "front from high", "centre from low", "centre from the middle", "centre from high", "end from low", "end from the middle", "end from high"}) sx_goal(g);
  far_cover(n, (int)sx_choice("seed", 1, FAR_SEEDS));
}

#include <stdio.h>
#include <stdlib.h>
// Native confirmation of h_far: more streams.
extern "C" void n_far() {
  index_t n = sx_arg(0);
  env_init();
  uint32_t f[3][3] = {}, b[3][3] = {};
  index_t at[3] = {0, n / 2, n - 1};
  for (int seed = 1; seed <= 300; seed++) {
    shuffle::LocalShuffler a(seed * 1000003 + 5);
    a.Initialize(n);
    for (int i = 0; i < 3; i++) {
      f[i][(uint64_t)a.Shuffle(at[i]) * 3 / n]++;
      b[i][(uint64_t)a.Deshuffle(at[i]) * 3 / n]++;
    }
  }
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (!f[i][j] || !b[i][j]) { sx_note("message", at[i]); sx_note("third", j); sx_fail("C07: this message never gets to (or comes from) that third of the batch"); }
}
// Native confirmation for C07. mode 0: exact distribution of random_bounded(n) over the whole source.
extern "C" void n_count() {
  uint32_t n = sx_arg(0);
  env_init();
  Stream* st = (Stream*)sx_shared_alloc(sizeof(Stream));
  st->seed = SEED;
  st->sym = 1;
  st->n = ENV_STREAMLEN;
  for (int i = 0; i < ENV_STREAMLEN; i++) st->v[i] = 12345 + 77777 * i;
  W->stream[W->nstream++] = st;
  std::vector<uint64_t> c(n, 0);
  shuffle::util::seed(SEED);
  for (uint64_t r = 0; r < (1ull << 31); r += 127) {  // equidistant; 127 is coprime to all small ranges
    st->v[0] = (uint32_t)r;
    shuffle::util::seed(SEED);
    uint32_t v = shuffle::util::random_bounded(n);
    if (v < n) c[v]++;
  }
  double expect = (double)((1ull << 31) / 127) / n;
  for (uint32_t k = 0; k < n; k++)
    if (c[k] < expect * 0.98 - 3 || c[k] > expect * 1.02 + 3) { sx_note("index", k); sx_note("count", c[k]); sx_fail("C07: this index is favoured or excluded"); }
}
// mode 1: sample permutations and list those seen
extern "C" void n_perms() {
  index_t n = sx_arg(0);
  env_init();
  Stream* st = (Stream*)sx_shared_alloc(sizeof(Stream));
  st->seed = SEED;
  st->sym = 1;
  st->n = ENV_STREAMLEN;
  W->stream[W->nstream++] = st;
  std::vector<uint8_t> seen(FACT[n], 0);
  for (int t = 0; t < 60000; t++) {
    for (int i = 0; i < 8; i++) st->v[i] = sx_sym("rand", 32, 0, 0x7fffffff);
    shuffle::LocalShuffler a(SEED);
    a.Initialize(n);
    seen[perm_id(a, n)] = 1;
  }
  for (int i = 0; i < FACT[n]; i++) if (!seen[i]) { sx_note("missing", i); sx_fail("C07: this permutation is never produced"); }
}

// mode 2: all streams of the reduced source; every permutation equally often
extern "C" void n_equal() {
  index_t n = sx_arg(0);
  uint32_t L = n <= 2 ? 2 : n == 3 ? 6 : 12;
  env_init();
  Stream* st = (Stream*)sx_shared_alloc(sizeof(Stream));
  st->seed = SEED;
  st->sym = 1;
  st->n = ENV_STREAMLEN;
  W->stream[W->nstream++] = st;
  std::vector<uint32_t> c(FACT[n], 0);
  uint32_t total = 1;
  for (index_t i = 1; i < n; i++) total *= L;
  for (uint32_t t = 0; t < total; t++) {
    uint32_t x = t;
    for (int i = 0; i < 6; i++) {
      uint32_t j = x % L;
      x /= L;
      uint32_t base = (uint32_t)(((uint64_t)j << 31) / L) + 1;
      st->v[i] = base + (j + L - base % L) % L;
    }
    shuffle::LocalShuffler a(SEED);
    a.Initialize(n);
    c[perm_id(a, n)]++;
  }
  for (int i = 0; i < FACT[n]; i++) if (c[i] != c[0]) { sx_note("perm", i); sx_note("count", c[i]); sx_fail("C07: permutations are not equally likely"); }
}
