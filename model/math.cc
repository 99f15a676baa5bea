// log: concrete arguments are evaluated; a symbolic argument gets a value constrained by the
// contract in sx_log_contract (weak; harnesses that let it happen supply bounds).
#include "sx.h"
#include <string.h>
extern "C" double sx_log(double x) {
  uint64_t b;
  memcpy(&b, &x, 8);
  if (!sx_is_symbolic(b)) return sx_mathd("log", x, 0);
  uint64_t g = sx_ghost("log", 64, 0, ~0ull);
  double y;
  memcpy(&y, &g, 8);
  // contract: finite and monotone around 1 for positive arguments, -inf at 0, bounded by the
  // extremes of the double range
  if (x == 0.0) return -__builtin_inf();
  sx_assume(x > 0.0);
  sx_assume(y >= -746.0);
  sx_assume(y <= 710.0);
  if (x < 1.0) sx_assume(y < 0.0);
  else if (x > 1.0) sx_assume(y > 0.0);
  else sx_assume(y == 0.0);
  return y;
}
