// Native runner: executes a harness entry against the really compiled code, taking the inputs from
// a replay file (a counterexample or witness of the symbolic executor) or from a seeded generator.
#include <dlfcn.h>
#include <errno.h>
#include <math.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "sx.h"

enum { MAXP = 32, MAXIN = 200000 };
struct Shared {
  sem_t baton[MAXP];
  int nproc;
  int abort_ok;
  int next_in;
  uint64_t rng;
  size_t brk;
  int failed;
};
static Shared* G;
static char* heap;
static const size_t HEAP = 2048ul << 20;
static int self_pid = 0;
static int out_fd = 1;
static bool random_mode;
static int n_in;
static char (*in_name)[64];
static uint64_t* in_val;
static uint64_t args[64];
static int nargs;

static void line(const char* f, ...) {
  char b[1024];
  va_list ap;
  va_start(ap, f);
  int n = vsnprintf(b, sizeof b - 1, f, ap);
  va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  if (write(out_fd, b, n) < 0) {}
}
static uint64_t rnd() {
  uint64_t z = (G->rng += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
extern "C" {
uint64_t sx_sym(const char* name, int bits, uint64_t lo, uint64_t hi) {
  if (lo == hi) { if (!random_mode) G->next_in++; return lo; }
  if (random_mode) {
    uint64_t span = hi - lo + 1;
    return span == 0 ? rnd() : lo + rnd() % span;
  }
  int i = G->next_in++;
  if (i >= n_in) { line("DIVERGED out of inputs at %s", name); _exit(99); }
  if (strcmp(in_name[i], name)) { line("DIVERGED expected %s got %s", in_name[i], name); _exit(99); }
  uint64_t v = in_val[i];
  if (v < lo || v > hi) { line("DIVERGED %s out of range", name); _exit(99); }
  return v;
}
uint64_t sx_ghost(const char* name, int, uint64_t, uint64_t) { line("DIVERGED ghost %s", name); _exit(99); }
uint64_t sx_fork(uint64_t v) { return v; }
int sx_is_symbolic(uint64_t) { return 0; }
void sx_assume(int c) { if (!c) { line("ASSUME"); _exit(77); } }
void sx_fail(const char* m) { line("FAIL %s", m); _exit(10); }
void sx_assert_(int c, const char* m) { if (!c) { line("ASSERT %s", m); _exit(10); } }
void sx_cover(const char* n) { line("COVER %s", n); }
void sx_cover_if(int c, const char* n) { if (c) line("COVER %s", n); }
void sx_cover_id(const char* n, uint64_t v) { line("COVER %s#%llu", n, (unsigned long long)v); }
void sx_goal(const char*) {}
void sx_goal_ids(const char*, uint64_t) {}
void sx_note(const char* n, uint64_t v) { line("NOTE %s %llu", n, (unsigned long long)v); }
void sx_abort_ok(int m) { G->abort_ok = m; }
void sx_exit_path(void) { line("DONE"); _exit(0); }
uint64_t sx_arg(int i) { return i < nargs ? args[i] : 0; }
int sx_native(void) { return 1; }
int sx_self(void) { return self_pid; }
void* sx_shared_alloc(uint64_t n) {
  size_t p = __atomic_fetch_add(&G->brk, (n + 63) & ~63ull, __ATOMIC_SEQ_CST);
  if (p + n > HEAP) { line("DIVERGED shared heap"); _exit(99); }
  return heap + p;
}
static void wait_baton(int p) { while (sem_wait(&G->baton[p]) < 0 && errno == EINTR) {} }
int sx_spawn(void (*fn)(void*), void* arg) {
  int n = G->nproc++;
  if (n >= MAXP) { line("DIVERGED processes"); _exit(99); }
  pid_t c = fork();
  if (c < 0) { line("DIVERGED fork"); _exit(99); }
  if (c == 0) {
    self_pid = n;
    wait_baton(n);
    fn(arg);
    line("DIVERGED spawned process returned");
    _exit(99);
  }
  return n;
}
void sx_switch(int pid) {
  if (pid == self_pid) return;
  sem_post(&G->baton[pid]);
  wait_baton(self_pid);
}
double sx_mathd(const char*, double, double) { line("DIVERGED mathd"); _exit(99); }
void sx_debug(const char* n, uint64_t v) { fprintf(stderr, "[%d] %s = %llu\n", self_pid, n, (unsigned long long)v); }
// end of process by the code under test
void sx_exit(int c) {
  if (G->abort_ok) { line("ABORTED exit(%d)", c); _exit(42); }
  line("EXIT %d", c);
  _exit(10);
}
void sx__exit(int c) { sx_exit(c); }
}
static void on_abort(int s) {
  if (G->abort_ok) { line("ABORTED"); _exit(42); }
  line("SIGNAL %d", s);
  _exit(10);
}
// a spawned process ended: so does the run, in the same way
static void on_child(int) {
  int st;
  if (waitpid(-1, &st, WNOHANG) <= 0) return;
  if (WIFEXITED(st)) _exit(WEXITSTATUS(st));
  line("SIGNAL %d", WTERMSIG(st));
  _exit(10);
}
static void on_crash(int s) { line("SIGNAL %d", s); _exit(10); }

int main(int argc, char** argv) {
  const char *replay = nullptr, *entry = nullptr, *out = nullptr;
  uint64_t seed = 1;
  int limit = 30;
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--replay")) replay = argv[++i];
    else if (!strcmp(argv[i], "--random")) { random_mode = true; seed = strtoull(argv[++i], 0, 10); }
    else if (!strcmp(argv[i], "--entry")) entry = argv[++i];
    else if (!strcmp(argv[i], "--out")) out = argv[++i];
    else if (!strcmp(argv[i], "--limit")) limit = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--arg")) args[nargs++] = strtoull(argv[++i], 0, 10);
  }
  if (out) { FILE* f = fopen(out, "w"); if (!f) return 98; out_fd = dup(fileno(f)); fclose(f); }
  G = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  heap = (char*)mmap(0, HEAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int i = 0; i < MAXP; i++) sem_init(&G->baton[i], 1, 0);
  G->nproc = 1;
  G->rng = seed * 0x2545f4914f6cdd1dull + 99;
  if (replay) {
    in_name = (char(*)[64])malloc(64 * MAXIN);
    in_val = (uint64_t*)malloc(8 * MAXIN);
    FILE* f = fopen(replay, "r");
    if (!f) { fprintf(stderr, "no replay file\n"); return 98; }
    unsigned long long v;
    while (n_in < MAXIN && fscanf(f, "%63s %llu", in_name[n_in], &v) == 2) in_val[n_in++] = v;
    fclose(f);
  }
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, entry);
  if (!fn) { fprintf(stderr, "no entry %s\n", entry); return 98; }
  setpgid(0, 0);
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  pid_t c = fork();
  if (c == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGABRT, on_abort);
    signal(SIGILL, on_crash);
    signal(SIGFPE, on_crash);
    signal(SIGCHLD, on_child);
    fn();
    line("DONE");
    _exit(0);
  }
  // the first process to end decides
  int st = 0, code = 98;
  signal(SIGALRM, [](int) { line("HANG"); signal(SIGTERM, SIG_IGN); kill(0, SIGKILL); });
  alarm(limit);
  pid_t p = waitpid(-1, &st, 0);
  (void)p;
  if (WIFEXITED(st)) code = WEXITSTATUS(st);
  else if (WIFSIGNALED(st)) { line("SIGNAL %d", WTERMSIG(st)); code = 10; }
  if (code == 11) line("SANITIZER");
  signal(SIGTERM, SIG_IGN);
  kill(0, SIGTERM);
  // sanitizer-instrumented children do not catch SIGTERM
  return code;
}
