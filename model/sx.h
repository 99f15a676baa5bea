// Interface between harnesses/environment model and the symbolic executor (engine/exec.cc), and,
// for replays, the native runner (model/native.cc).
#ifndef VERIF_SX_H_
#define VERIF_SX_H_
#include <stddef.h>
#include <stdint.h>
extern "C" {
uint64_t sx_sym(const char* name, int bits, uint64_t lo, uint64_t hi);    // a fresh input
uint64_t sx_ghost(const char* name, int bits, uint64_t lo, uint64_t hi);  // engine-only value
uint64_t sx_fork(uint64_t v);                                            // enumerate v by solver
int sx_is_symbolic(uint64_t v);
void sx_assume(int c);
void sx_assert_(int c, const char* msg);
void sx_fail(const char* msg);
void sx_cover(const char* name);
void sx_cover_if(int c, const char* name);
void sx_cover_id(const char* name, uint64_t v);
void sx_goal(const char* name);
void sx_goal_ids(const char* name, uint64_t k);
void sx_note(const char* name, uint64_t v);
void sx_abort_ok(int mode);
void sx_exit_path(void);
uint64_t sx_arg(int i);
int sx_native(void);
int sx_self(void);
void* sx_shared_alloc(uint64_t n);
int sx_spawn(void (*fn)(void*), void* arg);
void sx_switch(int pid);
double sx_mathd(const char* fn, double x, double y);
void sx_debug(const char* name, uint64_t v);
}
#define SX_ASSERT(c, msg) sx_assert_((c) ? 1 : 0, msg)
static inline uint64_t sx_choice(const char* name, uint64_t lo, uint64_t hi) {
  return sx_fork(sx_sym(name, 32, lo, hi));
}
#endif
