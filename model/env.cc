#include "env.h"
#include <errno.h>
#include <poll.h>
#include <string.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <chrono>

int (*env_rand_cb)(void);
int (*env_unseeded_cb)(int);
World* W;
uint32_t (*env_uniform_cb)(uint32_t);
void (*env_randbuf_cb)(uint8_t*, size_t);

void env_init() {
  W = (World*)sx_shared_alloc(sizeof(World));
  memset(W, 0, sizeof(World));
  W->nproc = 1;
  W->ip[0] = 0x7f000001;
  W->rand_default = 1;
  W->cut_conn = -1;
  W->rl = (RandRec*)sx_shared_alloc(sizeof(RandRec) * ENV_MAXRL);
  W->maxrl = ENV_MAXRL;
  W->logcap = ENV_LOGCAP;
  W->maxdraw = ENV_MAXDRAW;
  W->draw = (Draw*)sx_shared_alloc(sizeof(Draw) * ENV_MAXDRAW);
  W->maxev = ENV_MAXEV;
  W->ev = (Event*)sx_shared_alloc(sizeof(Event) * ENV_MAXEV);
  env_uniform_cb = nullptr;
  env_randbuf_cb = nullptr;
  env_rand_cb = nullptr;
  env_unseeded_cb = nullptr;
}

void env_big(uint32_t bytes, uint32_t draws) {
  W->logcap = bytes;
  W->maxdraw = draws;
  W->draw = (Draw*)sx_shared_alloc(sizeof(Draw) * draws);
}
void env_big_events(uint32_t n) {
  W->maxev = n;
  W->ev = (Event*)sx_shared_alloc(sizeof(Event) * n);
}
void env_big_rand(uint32_t n) {
  W->maxrl = n;
  W->rl = (RandRec*)sx_shared_alloc(sizeof(RandRec) * n);
}
static FileEnt* file_ent(const char* name) {
  for (int i = 0; i < W->nfile; i++) {
    size_t k = 0;
    while (k < 63 && name[k] && name[k] == W->file[i].name[k]) k++;
    if (!name[k] && !W->file[i].name[k]) return &W->file[i];
  }
  return nullptr;
}
const uint8_t* env_file_get(const char* name, uint32_t* len) {
  FileEnt* f = file_ent(name);
  if (!f) return nullptr;
  *len = f->len;
  return f->data;
}
void env_file_put(const char* name, const void* data, uint32_t len) {
  FileEnt* f = file_ent(name);
  if (!f) {
    if (W->nfile >= 8) sx_fail("model: too many files");
    f = &W->file[W->nfile++];
    size_t k = 0;
    for (; name[k] && k < 63; k++) f->name[k] = name[k];
    f->name[k] = 0;
    f->cap = 0;
    f->data = nullptr;
  }
  if (len > f->cap || !f->data) { f->cap = len * 2 + 64; f->data = (uint8_t*)sx_shared_alloc(f->cap); }
  for (uint32_t i = 0; i < len; i++) f->data[i] = ((const uint8_t*)data)[i];
  f->len = len;
}
static uint32_t parse_ip(const char* s) {
  uint32_t r = 0;
  int parts = 0;
  while (parts < 4) {
    uint32_t v = 0;
    int digits = 0;
    while (*s >= '0' && *s <= '9') { v = v * 10 + (*s - '0'); s++; digits++; }
    if (!digits || v > 255) return 0;
    r = (r << 8) | v;
    parts++;
    if (parts < 4) { if (*s != '.') return 0; s++; }
  }
  return *s ? 0 : r;
}
void env_set_ip(const char* ip) { W->ip[sx_self()] = parse_ip(ip); }

// ---------------------------------------------------------------- scheduling
// blocked: 0 can run, 1 waits for something to change, 2 stands at a point where the schedule
// decides what it sees (it can go on as soon as it is chosen).
static void wake_all() { for (int i = 0; i < W->nproc; i++) if (W->blocked[i] == 1) W->blocked[i] = 0; }
void env_wake() { wake_all(); }
static int next_in(int self, int state) {
  for (int k = 1; k <= W->nproc; k++) {
    int p = (self + k) % W->nproc;
    if (p != self && !W->done[p] && W->blocked[p] == state) return p;
  }
  return -1;
}
static int next_runnable(int self) {
  int p = next_in(self, 0);
  return p >= 0 ? p : next_in(self, 2);
}
// The calling process cannot go on; run somebody else.
static void block(const char* what) {
  int self = sx_self();
  W->blocked[self] = 1;
  int p = next_runnable(self);
  if (p < 0) sx_fail(what);
  sx_switch(p);
  W->blocked[self] = 0;
}
// A point where the default course may be left, at the price of one deviation: 0 = default.
static int deviate(int kind, const char* name, int n) {
  if (n <= 0 || W->dev <= 0 || !(W->dev_kinds & kind)) return 0;
  int k = sx_choice(name, 0, n);
  if (k) W->dev--;
  return k;
}
// The others first, once.
static void step_back() {
  int self = sx_self();
  int p = next_runnable(self);
  if (p < 0) return;
  if (!deviate(8, "step_back", 1)) return;
  W->blocked[self] = 0;
  sx_switch(p);
  W->blocked[self] = 0;
}
// Let the others run as far as they can; then the schedule (a solver choice while the budget
// lasts) decides whether this process or another one at such a point goes on.
void env_yield_all() {
  int self = sx_self();
  while (1) {
    int p = next_in(self, 0);
    if (p < 0) {
      int w = next_in(self, 2);
      if (w < 0) break;
      int n = 1, k;
      for (int q = 0; q < W->nproc; q++) if (q != self && !W->done[q] && W->blocked[q] == 2) n++;
      if (W->sched_choices > 0) { W->sched_choices--; k = sx_choice("sched", 0, n - 1); }
      else k = deviate(8, "sched", n - 1);
      if (k == 0) break;
      for (int q = 0; q < W->nproc; q++)
        if (q != self && !W->done[q] && W->blocked[q] == 2 && --k == 0) p = q;
      W->blocked[p] = 0;
      W->blocked[self] = 2;
      sx_switch(p);
      if (W->blocked[self] == 0) break;  // chosen
      W->blocked[self] = 0;
      continue;
    }
    W->blocked[self] = 2;
    sx_switch(p);
    W->blocked[self] = 0;
  }
}
void env_spawn(void (*fn)(void*), void* arg) {
  int n = W->nproc;
  if (n >= ENV_MAXPROC) sx_fail("model: too many processes");
  W->nproc = n + 1;
  W->ip[n] = 0x7f000001;
  int p = sx_spawn(fn, arg);
  if (p != n) sx_fail("model: process numbering");
}
void env_close_all() {
  int self = sx_self();
  for (int c = 0; c < W->nconn; c++)
    for (int s = 0; s < 2; s++)
      if (W->conn[c].pid[s] == self) W->conn[c].d[s].closed = 1;
  wake_all();
}
void env_finish() {
  int self = sx_self();
  env_close_all();
  W->done[self] = 1;
  W->ndone++;
  wake_all();
  while (1) {
    int p = next_runnable(self);
    if (p < 0) { sx_fail("deadlock: every remaining process waits for input that never comes"); }
    sx_switch(p);
  }
}
void env_join() {
  while (W->ndone < W->nproc - 1) block("deadlock: every remaining process waits for input that never comes");
}

// ---------------------------------------------------------------- file descriptors
static FdEnt* ent(int fd) {
  if (fd < ENV_FD0 || fd >= ENV_FD0 + ENV_MAXFD) return nullptr;
  FdEnt* e = &W->fd[sx_self()][fd - ENV_FD0];
  return e->kind ? e : nullptr;
}
static int new_fd() {
  for (int i = 0; i < ENV_MAXFD; i++)
    if (!W->fd[sx_self()][i].kind) { W->fd[sx_self()][i].kind = 1; W->fd[sx_self()][i].failing = 0; return i + ENV_FD0; }
  return -1;
}
static void new_conn_data(Conn* c) {
  for (int s = 0; s < 2; s++) {
    c->d[s].wlen = c->d[s].rpos = c->d[s].vis = 0;
    c->d[s].cut = -1;
    c->d[s].cut_err = 0;
    c->d[s].closed = 0;
    c->d[s].data = (uint8_t*)sx_shared_alloc(W->logcap);
    if (c - W->conn == W->cut_conn && s == W->cut_dir) { c->d[s].cut = W->cut_at; c->d[s].cut_err = W->cut_err; }
  }
}
static void event(int kind, int conn, int side, uint32_t off, uint32_t len) {
  if (!W->track_events) return;
  if (W->nev >= W->maxev) sx_fail("model: too many events");
  Event* e = &W->ev[W->nev++];
  e->pid = sx_self(); e->kind = kind; e->conn = conn; e->side = side; e->off = off; e->len = len;
}
int env_socketpair(int other, int* my_fd, int* other_fd) {
  int c = W->nconn++;
  if (c >= ENV_MAXCONN) sx_fail("model: too many connections");
  Conn* k = &W->conn[c];
  k->pid[0] = sx_self(); k->pid[1] = other; k->port = 0; k->accepted = 1;
  new_conn_data(k);
  int f = new_fd();
  FdEnt* e = ent(f);
  e->kind = 4; e->conn = c; e->side = 0;
  *my_fd = f;
  int g = -1;
  for (int i = 0; i < ENV_MAXFD; i++) if (!W->fd[other][i].kind) { g = i; break; }
  if (g < 0) sx_fail("model: too many descriptors");
  FdEnt* o = &W->fd[other][g];
  o->kind = 4; o->conn = c; o->side = 1;
  *other_fd = g + ENV_FD0;
  return c;
}

// bytes the reader of (conn, side) can get now; eof: 0 none, 1 end of stream, 2 error
static uint32_t readable(Conn* c, int side, int* eof) {
  Dir* d = &c->d[1 - side];
  uint32_t lim = d->wlen;
  *eof = 0;
  if (d->cut >= 0 && (uint32_t)d->cut <= lim) { lim = d->cut; if (d->rpos >= lim) *eof = d->cut_err ? 2 : 1; }
  else if (d->closed && d->rpos >= lim) *eof = 1;
  return lim - d->rpos;
}

extern "C" {
int sx_socket(int, int, int) { int f = new_fd(); if (f < 0) errno = EMFILE; return f; }
int sx_setsockopt(int fd, int, int, const void*, socklen_t) { return ent(fd) ? 0 : -1; }
int sx_getsockopt(int fd, int, int, void* v, socklen_t*) {
  if (!ent(fd)) return -1;
  *(int*)v = 1 << 30;
  return 0;
}
int sx_inet_pton(int, const char* s, void* out) {
  uint32_t a = parse_ip(s);
  if (!a) return 0;
  uint32_t n = htonl(a);
  memcpy(out, &n, 4);
  return 1;
}
uint32_t sx_inet_addr(const char* s) { uint32_t a = parse_ip(s); return a ? htonl(a) : 0xffffffffu; }
int sx_bind(int fd, const struct sockaddr* a, socklen_t) {
  FdEnt* e = ent(fd);
  if (!e || e->kind != 1) { errno = EINVAL; return -1; }
  const struct sockaddr_in* in = (const struct sockaddr_in*)a;
  int port = ntohs(in->sin_port);
  for (int i = 0; i < W->nlist; i++)
    if (W->lst[i].ip == W->ip[sx_self()] && W->lst[i].port == port) { errno = EADDRINUSE; return -1; }
  int l = W->nlist++;
  if (l >= ENV_MAXLIST) sx_fail("model: too many listeners");
  W->lst[l].pid = sx_self(); W->lst[l].ip = W->ip[sx_self()]; W->lst[l].port = port; W->lst[l].open = 0;
  e->kind = 2; e->lst = l;
  return 0;
}
int sx_listen(int fd, int) {
  FdEnt* e = ent(fd);
  if (!e || e->kind != 2) { errno = EINVAL; return -1; }
  e->kind = 3;
  W->lst[e->lst].open = 1;
  wake_all();
  return 0;
}
int sx_accept(int fd, struct sockaddr*, socklen_t*) {
  FdEnt* e = ent(fd);
  if (!e || e->kind != 3) { errno = EINVAL; return -1; }
  while (1) {
    if (W->accept_choices > 0 || (W->dev > 0 && (W->dev_kinds & 16))) env_yield_all();
    int cand[ENV_MAXCONN], n = 0;
    for (int c = 0; c < W->nconn; c++)
      if (W->conn[c].pid[1] == sx_self() && W->conn[c].port == W->lst[e->lst].port && !W->conn[c].accepted) cand[n++] = c;
    if (n) {
      int k = 0;
      if (n > 1 && W->accept_choices > 0) { W->accept_choices--; k = sx_choice("accept_order", 0, n - 1); }
      else k = deviate(16, "accept_order", n - 1);
      int c = cand[k], f = new_fd();
      if (f < 0) { errno = EMFILE; return -1; }
      FdEnt* x = ent(f);
      x->kind = 4; x->conn = c; x->side = 1;
      W->conn[c].accepted = 1;
      return f;
    }
    block("deadlock: a server waits for a connection that is never made");
  }
}
int sx_accept4(int fd, struct sockaddr* a, socklen_t* l, int) { return sx_accept(fd, a, l); }
int sx_connect(int fd, const struct sockaddr* a, socklen_t) {
  FdEnt* e = ent(fd);
  if (!e || e->kind != 1) { errno = EINVAL; return -1; }
  const struct sockaddr_in* in = (const struct sockaddr_in*)a;
  int port = ntohs(in->sin_port);
  uint32_t ip = ntohl(in->sin_addr.s_addr);
  if (in->sin_family != AF_INET) { errno = EAFNOSUPPORT; return -1; }
  for (int i = 0; i < W->nlist; i++)
    if (W->lst[i].open && W->lst[i].ip == ip && W->lst[i].port == port) {
      int c = W->nconn++;
      if (c >= ENV_MAXCONN) sx_fail("model: too many connections");
      Conn* k = &W->conn[c];
      k->pid[0] = sx_self(); k->pid[1] = W->lst[i].pid; k->port = port; k->accepted = 0;
      new_conn_data(k);
      e->kind = 4; e->conn = c; e->side = 0;
      wake_all();
      return 0;
    }
  errno = ECONNREFUSED;
  return -1;
}
unsigned sx_sleep(unsigned) {
  // nothing but other processes can change the situation
  block("deadlock: a process retries for ever (nobody is left that could make it succeed)");
  return 0;
}
int sx_usleep(unsigned) { sx_sleep(0); return 0; }
int sx_nanosleep(const void*, void*) { sx_sleep(0); return 0; }
int sx_sched_yield() { return 0; }

static uint32_t frag(uint32_t avail) {
  // every size, as a solver choice
  uint32_t k = sx_sym("fragment", 32, 1, avail);
  return sx_fork(k);
}
// a few telling sizes, for whole-protocol runs
static uint32_t frag_dev(int kind, uint32_t m) {
  int lim = kind == 1 ? W->max_read : W->max_write;
  if (lim > 0 && m > (uint32_t)lim) m = lim;
  if (m < 2) return m;
  if (W->dev_sizes) { int k = deviate(kind, "short", m - 1); return k ? k : m; }
  int k = deviate(kind, "short", 3);
  return k == 0 ? m : k == 1 ? 1 : k == 2 ? m - 1 : (m + 1) / 2;
}
ssize_t sx_read(int fd, void* buf, size_t n) {
  FdEnt* e = ent(fd);
  if (!e || e->kind != 4) { errno = EBADF; return -1; }
  if (n == 0) return 0;
  Conn* c = &W->conn[e->conn];
  if (W->run_ahead) env_yield_all(); else step_back();
  while (1) {
    int eof;
    uint32_t a = readable(c, e->side, &eof);
    if (a) {
      uint32_t m = a < n ? a : (uint32_t)n;
      if (W->frag_reads > 0 && m > 1) { W->frag_reads--; m = frag(m); }
      else m = frag_dev(1, m);
      Dir* d = &c->d[1 - e->side];
      if (W->dev > 0 && (W->dev_kinds & 32)) {
        // the connection ends after some of these bytes
        int k = W->dev_sizes ? deviate(32, "ends", m) : deviate(32, "ends", m > 2 ? 3 : m);
        if (k) {
          uint32_t got = W->dev_sizes ? k - 1 : k == 1 ? 0 : k == 2 ? m - 1 : m / 2;
          d->cut = d->rpos + got;
          d->cut_err = W->cut_err;
          W->broken = 1;
          sx_abort_ok(1);
          if (!got) continue;
          m = got;
        }
      }
      memcpy(buf, d->data + d->rpos, m);
      event(2, e->conn, e->side, d->rpos, m);
      d->rpos += m;
      return m;
    }
    if (eof && W->broken) W->broken_pid = sx_self();
    if (eof == 2) { errno = ECONNRESET; return -1; }
    if (eof) {
      if (++W->eof_reads > 20) sx_fail("the process spins for ever on a connection whose peer is gone");
      return 0;
    }
    block("deadlock: a process waits for bytes that are never sent");
  }
}
ssize_t sx_recv(int fd, void* buf, size_t n, int flags) {
  if (flags & MSG_WAITALL) {
    size_t got = 0;
    while (got < n) { ssize_t k = sx_read(fd, (char*)buf + got, n - got); if (k < 0) return k; if (k == 0) break; got += k; }
    return got;
  }
  return sx_read(fd, buf, n);
}
ssize_t sx_send(int fd, const void* buf, size_t n, int) {
  FdEnt* e = ent(fd);
  if (!e || e->kind != 4) { errno = EBADF; return -1; }
  if (n == 0) return 0;
  Dir* d = &W->conn[e->conn].d[e->side];
  if (W->broken && W->broken_pid == sx_self()) sx_fail("C20: a process goes on sending after it noticed that a connection is gone");
  // a send fails at once, or after it took some of the bytes
  int fails = e->failing ? 1 : deviate(64, "send_fails", n > 1 ? 3 : 1);
  if (fails == 1) { W->broken = 1; W->broken_pid = sx_self(); sx_abort_ok(1); errno = EPIPE; return -1; }
  uint32_t m = n;
  if (fails) { e->failing = 1; m = fails == 2 ? 1 : n - 1; W->broken = 1; sx_abort_ok(1); }
  else
  if (W->frag_writes > 0 && m > 1) { W->frag_writes--; m = frag(m); }
  else m = frag_dev(2, m);
  if (d->wlen + m > W->logcap) sx_fail("model: connection log too small");
  memcpy(d->data + d->wlen, buf, m);
  event(1, e->conn, e->side, d->wlen, m);
  d->wlen += m;
  wake_all();
  return m;
}
ssize_t sx_write(int fd, const void* buf, size_t n) {
  if (fd == 1 || fd == 2) return n;
  return sx_send(fd, buf, n, 0);
}
int sx_close(int fd) {
  FdEnt* e = ent(fd);
  if (!e) { errno = EBADF; return -1; }
  if (e->kind == 4) { W->conn[e->conn].d[e->side].closed = 1; wake_all(); }
  if (e->kind == 3 || e->kind == 2) { W->lst[e->lst].open = 0; W->lst[e->lst].port = -1; }
  e->kind = 0;
  return 0;
}
int sx_shutdown(int fd, int how) {
  FdEnt* e = ent(fd);
  if (!e || e->kind != 4) return -1;
  if (how != SHUT_RD) { W->conn[e->conn].d[e->side].closed = 1; wake_all(); }
  return 0;
}
int sx_poll(struct pollfd* p, nfds_t n, int timeout) {
  if (W->run_ahead) env_yield_all(); else step_back();
  while (1) {
    int ready[ENV_MAXFD], k = 0;
    for (nfds_t i = 0; i < n; i++) {
      p[i].revents = 0;
      if (p[i].fd < 0) continue;
      FdEnt* e = ent(p[i].fd);
      if (!e) { p[i].revents = POLLNVAL; k++; continue; }
      if (e->kind != 4 || !(p[i].events & POLLIN)) continue;
      int eof;
      uint32_t a = readable(&W->conn[e->conn], e->side, &eof);
      if (a || eof) { ready[k++] = i; }
    }
    if (k) {
      int any = 0;
      for (int j = 0; j < k; j++) {
        int on = 1;
        // whether the data of this sibling already arrived is up to the schedule
        bool last = j == k - 1 && !any && timeout != 0;
        if (W->poll_choices > 0 && !last) { W->poll_choices--; on = sx_choice("poll_ready", 0, 1); }
        else if (!last) on = !deviate(4, "not_yet", 1);
        if (on) { p[ready[j]].revents = POLLIN; any++; }
      }
      return any;
    }
    if (timeout == 0) return 0;
    if (timeout > 0) {
      // give the others a chance; after that the timeout may fire
      env_yield_all();
      int more = 0;
      for (nfds_t i = 0; i < n; i++) {
        if (p[i].fd < 0) continue;
        FdEnt* e = ent(p[i].fd);
        int eof;
        if (e && e->kind == 4 && (readable(&W->conn[e->conn], e->side, &eof) || eof)) more = 1;
      }
      if (!more) return 0;
      continue;
    }
    block("deadlock: a server polls for data that is never sent");
  }
}

// ---------------------------------------------------------------- rand()
static int cur_stream = -1, cur_idx = 0;
static uint32_t cur_seed = 1;
void sx_srand(unsigned s) { cur_stream = -1; cur_idx = 0; cur_seed = s; }
static uint32_t mix(uint32_t a, uint32_t b) {
  uint32_t h = a * 2654435761u + b * 40503u + 12345u;
  h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; h *= 3266489917u; h ^= h >> 16;
  return h & 0x7fffffffu;
}
static int stream_of(uint32_t s) {
  for (int i = 0; i < W->nstream; i++) if (W->stream[i]->seed == s) return i;
  return -1;
}
void env_symbolic_seed_(uint32_t s) {
  if (W->nstream >= ENV_MAXSTREAM) sx_fail("model: too many streams");
  Stream* st = (Stream*)sx_shared_alloc(sizeof(Stream));
  st->seed = s; st->n = 0; st->sym = 1;
  W->stream[W->nstream++] = st;
}
static int rand_value();
int sx_rand() {
  if (env_rand_cb) return env_rand_cb();
  int v = rand_value();
  if (W->rand_log && W->nrl < W->maxrl) { W->rl[W->nrl].pid = sx_self(); W->rl[W->nrl].v = v; W->nrl++; }
  return v;
}
static int rand_value() {
  int i = cur_idx++;
  if (cur_seed == 1 && env_unseeded_cb) return env_unseeded_cb(i);
  int k = stream_of(cur_seed);
  if (k < 0) {
    if (W->rand_default == 0) return 0;
    if (W->rand_default == 2) return 0x7fffffff;
    return mix(cur_seed, i);
  }
  Stream* st = W->stream[k];
  if (i >= ENV_STREAMLEN) sx_fail("model: random stream too long");
  while (st->n <= i) { st->v[st->n] = sx_sym("rand", 32, 0, 0x7fffffff); st->n++; }
  return st->v[i];
}
int sx_rand_r(unsigned* s) { int r = mix(*s, 7); *s = r + 1; return r; }
void sx_srandom(unsigned s) { sx_srand(s); }
long sx_random() { return sx_rand(); }

// ---------------------------------------------------------------- libsodium
int sx_sodium_init() { return 0; }
static void note_draw(uint32_t bound, uint32_t v) {
  if ((uint32_t)W->ndraw < W->maxdraw) { Draw* d = &W->draw[W->ndraw++]; d->pid = sx_self(); d->bound = bound; d->val = v; }
}
uint32_t sx_randombytes_uniform(const uint32_t bound) {
  uint32_t v;
  if (bound < 2) v = 0;
  else if (env_uniform_cb) v = env_uniform_cb(bound);
  else v = sx_sym("uniform", 32, 0, bound - 1);
  note_draw(bound, v);
  return v;
}
uint32_t sx_randombytes_random() {
  uint32_t v = env_uniform_cb ? env_uniform_cb(0) : (uint32_t)sx_sym("random32", 32, 0, 0xffffffffu);
  note_draw(0, v);
  return v;
}
void sx_randombytes_buf(void* const buf, const size_t n) {
  if (env_randbuf_cb) { env_randbuf_cb((uint8_t*)buf, n); return; }
  uint8_t* b = (uint8_t*)buf;
  size_t i = 0;
  for (; i + 4 <= n; i += 4) { uint32_t v = sx_sym("randbuf", 32, 0, 0xffffffffu); memcpy(b + i, &v, 4); }
  for (; i < n; i++) b[i] = sx_sym("randbyte", 8, 0, 255);
}
// Ideal sealed box: [public key 32][check 16][plaintext]. Only the holder of the matching key pair
// opens it, and any change to any word is noticed.
static void mac(const unsigned char* m, unsigned long long n, const unsigned char* pk, uint8_t out[16]) {
  uint32_t x = 0x9e3779b9u, y = (uint32_t)n;
  unsigned long long i = 0;
  for (; i + 4 <= n; i += 4) { uint32_t w; memcpy(&w, m + i, 4); x = ((x << 1) | (x >> 31)) ^ w; }
  for (; i < n; i++) x = ((x << 1) | (x >> 31)) ^ m[i];
  memcpy(out, &x, 4);
  memcpy(out + 4, &y, 4);
  memcpy(out + 8, pk, 4);
  uint32_t z = 0x5ea1ed00;
  memcpy(out + 12, &z, 4);
}
int sx_crypto_box_keypair(unsigned char* pk, unsigned char* sk) {
  int k = ++W->keys;
  for (int i = 0; i < 32; i++) pk[i] = (unsigned char)(k * 16 + i * 3 + 1);
  pk[31] = 0xA0 + k;
  for (int i = 0; i < 32; i++) sk[i] = pk[i] ^ 0x5a;
  return 0;
}
int sx_crypto_box_seal(unsigned char* c, const unsigned char* m, unsigned long long n, const unsigned char* pk) {
  uint8_t t[16];
  mac(m, n, pk, t);
  memmove(c + 48, m, n);
  memcpy(c + 32, t, 16);
  memcpy(c, pk, 32);
  return 0;
}
int sx_crypto_box_seal_open(unsigned char* m, const unsigned char* c, unsigned long long n, const unsigned char* pk, const unsigned char* sk) {
  if (n < 48) return -1;
  uint32_t bad = 0;
  for (int i = 0; i < 32; i++) bad |= (uint32_t)(c[i] ^ pk[i]) | (uint32_t)(pk[i] ^ sk[i] ^ 0x5a);
  uint8_t t[16];
  mac(c + 48, n - 48, pk, t);
  for (int i = 0; i < 16; i++) bad |= (uint32_t)(t[i] ^ c[32 + i]);
  if (bad) return -1;
  memmove(m, c + 48, n - 48);
  return 0;
}
int sx_clock_gettime(int, void* t) { ((long*)t)[0] = 1000; ((long*)t)[1] = 0; return 0; }
long sx_time(long* t) { if (t) *t = 1000; return 1000; }
}
void env_symbolic_seed(uint32_t s) { env_symbolic_seed_(s); }

namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(system_clock::duration(1000)); }
steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(steady_clock::duration(1000)); }
} } }
