// C04 (ranges), C05 (noise amounts).
#include <math.h>
#include <string.h>
#include "DPPIR/noise/noise.h"
#include "env.h"
using namespace DPPIR;

// C04: arg0 = servers, arg1 = smallest, arg2 = largest database size (symbolic), a symbolic row
extern "C" void h_ranges() {
  int n = sx_arg(0);
  env_init();
  index_t db = sx_sym("db", 32, sx_arg(1), sx_arg(2));
  DPPIR::key_t row = sx_sym("row", 32, 0, 0xffffffffu);
  uint32_t owners = 0;
  bool inside = true;
  for (int s = 0; s < n; s++) {
    auto r = noise::FindRange(s, n, db);
    inside &= (r.first <= r.second) & (r.second <= db);
    owners += (row >= r.first) & (row < r.second);
    if (s < 2) { sx_note("first", r.first); sx_note("second", r.second); }
  }
  SX_ASSERT(inside, "C04: a server is responsible for rows that do not exist");
  SX_ASSERT(owners == (row < db ? 1u : 0u), "C04: a row is not owned by exactly one server");
  sx_cover("end");
}
// every size of a small interval, every server count: no solver abstraction involved
extern "C" void h_ranges_small() {
  int n = sx_arg(0);
  env_init();
  index_t db = sx_choice("db", n, n + sx_arg(1));
  DPPIR::key_t next = 0;
  for (int s = 0; s < n; s++) {
    auto r = noise::FindRange(s, n, db);
    SX_ASSERT(r.first <= r.second && r.second <= db, "C04: a server is responsible for rows that do not exist");
    if (r.first < r.second) {
      SX_ASSERT(r.first == next, "C04: a row is not owned by exactly one server");
      next = r.second;
    }
  }
  SX_ASSERT(next == db, "C04: a row is not owned by exactly one server");
  sx_note("next", next);
  sx_cover("end");
}

// ---------------------------------------------------------------- C05
static const double EPS[] = {0.1, 0.01, 1, 2, 0.5, 10, 1e-6, 0.693, 3, 100};
static const double DEL[] = {1e-6, 1e-7, 0.5, 0.9, 1, 1e-3, 1e-12, 0.25, 1e-9, 0.001};
static double cutoff(double e, double d) { return 2 / e * log(1 / d); }
// ln(1/delta) is computed from 1-|1-delta|: allow for the rounding of that
static double slack(double e, double d) { return 2 / e * (4e-16 / d) + cutoff(e, d) * 1e-9 + 1e-9; }
static bool about(uint32_t s, double v, double sl) {
  double a = floor(v - sl), b = floor(v + sl);
  if (a < 0) a = 0;
  return s >= a && s <= b;
}
// arg0, arg1 = parameters. Default build.
extern "C" void h_mean() {
  double e = EPS[sx_arg(0)], d = DEL[sx_arg(1)];
  env_init();
  noise::NoiseDistribution n(e, d);
  for (int i = 0; i < 3; i++) {
    uint32_t s = n.Sample();
    sx_note("sample", s);
    SX_ASSERT(about(s, cutoff(e, d), slack(e, d)), "C05: noise is not the integer part of the cutoff");
  }
  sx_cover("end");
}
// zero epsilon or delta: no noise, whatever the other parameter
extern "C" void h_none() {
  env_init();
  double o = 0.001;
  if (!sx_arg(2)) {
    uint64_t bits = sx_sym("other", 64, 0, ~0ull);
    memcpy(&o, &bits, 8);
    sx_assume(o > 0 && o < 1e300);
  }
  double z = sx_arg(1) ? -0.0 : 0.0;
  if (sx_arg(2)) env_symbolic_seed(1);
  noise::NoiseDistribution n(sx_arg(0) ? z : o, sx_arg(0) ? o : z);
  for (int i = 0; i < (sx_arg(2) ? 1 : 2); i++) SX_ASSERT(n.Sample() == 0, "C05: noise although epsilon or delta is 0");
  sx_cover("end");
}
static uint32_t g1, g2;
static int gi;
// real sampling, any random numbers: stays between 0 and twice the cutoff
extern "C" void h_domain() {
  double e = EPS[sx_arg(0)], d = DEL[sx_arg(1)];
  env_init();
  env_symbolic_seed(1);
  noise::NoiseDistribution n(e, d);
  uint32_t s = n.Sample();
  double top = floor(2 * (cutoff(e, d) + slack(e, d)));
  SX_ASSERT((double)s <= top, "C05: sample outside 0 .. twice the cutoff");
  sx_cover("end");
}
static const uint32_t PTS[] = {0, 1, 2, 1000, 1u << 20, 1u << 29, (1u << 30) - 1, 1u << 30, (1u << 30) + 1, 3u << 29, 0x7fffffffu - 1000, 0x7ffffffeu, 0x7fffffffu};
enum { NPTS = sizeof PTS / sizeof PTS[0] };
static int cb_pts() { return PTS[sx_choice("pt", 0, NPTS - 1)]; }
// boundary values of the random source: domain, and the extremes are reachable
extern "C" void h_edges() {
  double e = EPS[sx_arg(0)], d = DEL[sx_arg(1)];
  env_init();
  env_rand_cb = cb_pts;
  noise::NoiseDistribution n(e, d);
  uint32_t s = n.Sample();
  double c = cutoff(e, d), top = floor(2 * (c + slack(e, d))), low = floor(2 * (c - slack(e, d)));
  SX_ASSERT((double)s <= top, "C05: sample outside 0 .. twice the cutoff");
  sx_goal("smallest");
  sx_goal("largest");
  if (s == 0) sx_cover("smallest");
  if ((double)s >= low) sx_cover("largest");
  sx_note("sample", s);
  sx_cover("end");
}
// the same, looking through the values one by one (confirmation in the real code)
static uint32_t cc;
static int cb_scan() { uint32_t k = cc / 2, i = cc++ & 1; return PTS[i ? k % NPTS : k / NPTS % NPTS]; }
extern "C" void n_edges() {
  double e = EPS[sx_arg(0)], d = DEL[sx_arg(1)];
  env_init();
  env_rand_cb = cb_scan;
  noise::NoiseDistribution n(e, d);
  double c = cutoff(e, d), top = floor(2 * (c + slack(e, d))), low = floor(2 * (c - slack(e, d)));
  bool sm = false, lg = false;
  for (int i = 0; i < NPTS * NPTS; i++) {
    uint32_t s = n.Sample();
    SX_ASSERT((double)s <= top, "C05: sample outside 0 .. twice the cutoff");
    sm |= s == 0;
    lg |= (double)s >= low;
  }
  SX_ASSERT(sm && lg, "C05: extreme noise amounts never drawn");
}
// shape: over a grid of equidistant random numbers the sample is Laplace with scale 2/epsilon
// around the cutoff; arg2 = grid
static uint32_t ci, cn;
static int cb_grid() { uint32_t k = ci / 2, i = ci++ & 1; uint64_t c = i ? k % cn : k / cn % cn; return (int)(((2 * c + 1) * 0x7fffffffull) / (2 * cn)); }
extern "C" void h_shape() {
  double e = EPS[sx_arg(0)], d = DEL[sx_arg(1)];
  env_init();
  cn = sx_arg(2);
  env_rand_cb = cb_grid;
  noise::NoiseDistribution n(e, d);
  double c = cutoff(e, d), b = 2 / e;
  uint32_t lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0};
  static const double q[3] = {0.35, 0.25, 0.125};  // tail mass
  for (uint32_t i = 0; i < cn * cn; i++) {
    uint32_t s = n.Sample();
    for (int k = 0; k < 3; k++) {
      double t = -b * log(2 * q[k]);
      lo[k] += (double)s < floor(c - t);
      hi[k] += (double)s > floor(c + t);
    }
  }
  for (int k = 0; k < 3; k++) {
    double fl = (double)lo[k] / (cn * cn), fh = (double)hi[k] / (cn * cn);
    sx_note("lo", lo[k]);
    sx_note("hi", hi[k]);
    SX_ASSERT(fl > q[k] - 0.06 && fl < q[k] + 0.06, "C05: noise below the cutoff does not follow the Laplace scale 2/epsilon");
    SX_ASSERT(fh > q[k] - 0.06 && fh < q[k] + 0.06, "C05: noise above the cutoff does not follow the Laplace scale 2/epsilon");
  }
  sx_cover("end");
}
// what does not fit is rejected: arg0 = how, parameters from a list
extern "C" void h_reject() {
  static const double BAD[][2] = {{1e-9, 1e-6}, {-1, 1e-6}, {-0.1, 0.5}, {1, 1.5}, {1, 2}, {1, -1}, {1, 3}, {1e-300, 0.5}, {5e-9, 1e-3}};
  env_init();
  sx_abort_ok(1);
  noise::NoiseDistribution n(BAD[sx_arg(0)][0], BAD[sx_arg(0)][1]);
  sx_abort_ok(0);
  sx_fail("C05: parameters whose noise cannot be represented were accepted");
}
// any epsilon (arg0 = delta): what is accepted can be represented and is about the cutoff
extern "C" void h_anyeps() {
  env_init();
  uint64_t bits = sx_sym("eps", 64, 0, ~0ull);
  double e, d = DEL[sx_arg(0)];
  memcpy(&e, &bits, 8);
  env_rand_cb = [] { return 1 << 30; };
  sx_abort_ok(1);
  noise::NoiseDistribution n(e, d);
  uint32_t s = n.Sample();
  sx_abort_ok(0);
  sx_note("sample", s);
  SX_ASSERT(s <= 0x7fffffffu, "C05: noise does not fit");
  sx_cover("end");
}
