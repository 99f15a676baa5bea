// C13: the byte stream may be cut anywhere into pieces. C20: a connection may end anywhere.
#include <string.h>
#include <memory>
#include <vector>
#include "DPPIR/config/config.h"
#include "DPPIR/sockets/client_socket.h"
#include "DPPIR/sockets/common.h"
#include "DPPIR/sockets/parallel_socket.h"
#include "DPPIR/sockets/server_socket.h"
#include "env.h"
using namespace DPPIR;

static int NC, NQ, CS, SYMB, CUT, CUTERR, SERVERS;
static uint32_t TOTAL[2];
static uint8_t* IDS;  // first bytes of all messages, shared by both ends
static uint32_t* MARK;  // counts, shared by both ends

static uint8_t at(int kind, int i, size_t b) { return (uint8_t)(kind * 67 + i * 31 + b * 7 + (b >> 5)); }
static uint8_t* key_byte(int kind, int i) { return &IDS[kind * 64 + i]; }
static void make_ids() {
  MARK = (uint32_t*)sx_shared_alloc(sizeof(uint32_t) * 32);
  for (int i = 0; i < 32; i++) MARK[i] = SYMB && i < 12 ? (uint32_t)sx_sym("mark", 32, 0, 0xffffffffu) : 0x01020304u * (i + 1);
  IDS = (uint8_t*)sx_shared_alloc(64 * 8);
  for (int k = 0; k < 8; k++) for (int i = 0; i < 64; i++) *key_byte(k, i) = SYMB && i < SYMB ? (uint8_t)sx_sym("content", 8, 0, 255) : (uint8_t)(i * 3 + k);
}
// message i of a kind: a distinctive pattern with arbitrary bytes at both ends
static void make(int kind, int i, uint8_t* p, size_t n) {
  for (size_t b = 0; b < n; b++) p[b] = at(kind, i, b);
  p[0] = *key_byte(kind, i);
  p[n - 1] = *key_byte(kind, i) ^ 0x55;
}
static bool is(int kind, int i, const uint8_t* p, size_t n) {
  uint32_t d = 0;
  for (size_t b = 1; b + 1 < n; b++) d |= (uint8_t)(p[b] ^ at(kind, i, b));
  d |= (uint8_t)(p[0] ^ *key_byte(kind, i)) | (uint8_t)(p[n - 1] ^ *key_byte(kind, i) ^ 0x55);
  return d == 0;
}
template <class T> static T value(int kind, int i) { T t; make(kind, i, (uint8_t*)&t, sizeof t); return t; }
static int CUTDIR;
static void over(int dir) { SX_ASSERT(CUT < 0 || dir != CUTDIR, "C20: a process went on although its input ended early"); }

static void budgets(uint64_t a) {
  // low 4 bits: deviations; next 8: kinds; bit 12: run ahead; bit 13: every size of a short read or write;
  // bits 16-23 / 24-31: no read / write moves more than a chosen number of bytes, up to this
  W->dev = a & 15;
  W->dev_kinds = (a >> 4) & 255;
  W->run_ahead = (a >> 12) & 1;
  W->dev_sizes = (a >> 13) & 1;
  if (a >> 16 & 255) W->max_read = sx_choice("max_read", 1, a >> 16 & 255);
  if (a >> 24 & 255) W->max_write = sx_choice("max_write", 1, a >> 24 & 255);
}
// ---------------------------------------------------------------- one client, one server
static void sender(void*) {
  sockets::ClientSocket s(CS);
  s.Initialize("127.0.0.1", 3000);
  s.SendCount(NC);
  s.WaitForReady();
  std::vector<char> c(CS);
  for (int i = 0; i < NC; i++) { make(0, i, (uint8_t*)c.data(), CS); s.SendCipher(c.data()); }
  s.FlushCiphers();
  s.SendCount(MARK[0]);
  s.WaitForReady();
  for (int i = 0; i < NQ; i++) s.SendQuery(value<Query>(1, i));
  s.FlushQueries();
  s.SendCount(MARK[1]);
  int read = 0;
  while (read < NQ) {
    auto& b = s.ReadResponses(NQ - read);
    SX_ASSERT((int)b.Size() <= NQ - read, "C13: more responses than asked for");
    for (Response& r : b) { SX_ASSERT(is(2, read, (uint8_t*)&r, sizeof r), "C13: a response is lost, duplicated or torn"); read++; }
    b.Clear();
  }
  s.WaitForReady();
  // a second batch over the same buffers
  s.SendQuery(value<Query>(3, 0));
  s.FlushQueries();
  over(1);
  env_finish();
}
static void receiver(void*) {
  sockets::ServerSocket s(CS);
  s.Initialize(3000);
  index_t n = s.ReadCount();
  SX_ASSERT(n == (index_t)NC, "C13: count arrives changed");
  s.SendReady();
  int read = 0;
  while (read < NC) {
    auto& b = s.ReadCiphers(NC - read);
    SX_ASSERT((int)b.Size() <= NC - read, "C13: more onions than asked for");
    for (char* c : b) { SX_ASSERT(is(0, read, (uint8_t*)c, CS), "C13: an onion is lost, duplicated or torn"); read++; }
    b.Clear();
  }
  SX_ASSERT(s.ReadCount() == MARK[0], "C13: bytes after the onions were consumed or changed");
  s.SendReady();
  read = 0;
  while (read < NQ) {
    auto& b = s.ReadQueries(NQ - read);
    SX_ASSERT((int)b.Size() <= NQ - read, "C13: more queries than asked for");
    for (Query& q : b) { SX_ASSERT(is(1, read, (uint8_t*)&q, sizeof q), "C13: a query is lost, duplicated or torn"); read++; }
    b.Clear();
  }
  SX_ASSERT(s.ReadCount() == MARK[1], "C13: bytes after the queries were consumed or changed");
  for (int i = 0; i < NQ; i++) s.SendResponse(value<Response>(2, i));
  s.FlushResponses();
  s.SendReady();
  read = 0;
  while (read < 1) {
    auto& b = s.ReadQueries(1);
    for (Query& q : b) { SX_ASSERT(is(3, 0, (uint8_t*)&q, sizeof q), "C13: a query of a later batch is torn"); read++; }
    b.Clear();
  }
  over(0);
  env_finish();
}
// args: onion size, onions, queries, symbolic contents (first so many messages), budgets
extern "C" void h_stream() {
  CS = sx_arg(0); NC = sx_arg(1); NQ = sx_arg(2); SYMB = sx_arg(3);
  env_init();
  CUT = -1;
  make_ids();
  budgets(sx_arg(4));
  env_spawn(sender, nullptr);
  env_spawn(receiver, nullptr);
  env_join();
  SX_ASSERT(W->nconn == 1, "C13: more than one connection");
  for (int d = 0; d < 2; d++) SX_ASSERT(W->conn[0].d[d].rpos == W->conn[0].d[d].wlen, "C13: bytes are left over");
  sx_note("bytes", W->conn[0].d[0].wlen);
  sx_cover("end");
}
// one direction of the connection ends at an arbitrary byte. args: onion size, onions, queries, direction, error instead of end
extern "C" void h_cut() {
  CS = sx_arg(0); NC = sx_arg(1); NQ = sx_arg(2);
  int dir = CUTDIR = sx_arg(3);
  SYMB = 0;
  env_init();
  make_ids();
  uint32_t total[2] = {4 + (uint32_t)NC * CS + 4 + (uint32_t)NQ * (uint32_t)sizeof(Query) + 4 + (uint32_t)sizeof(Query), 2 + (uint32_t)NQ * (uint32_t)sizeof(Response) + 1};
  CUT = sx_choice("cut", 0, total[dir] - 1);
  W->cut_at = CUT; W->cut_conn = 0; W->cut_dir = dir; W->cut_err = sx_arg(4);
  sx_abort_ok(1);
  env_spawn(sender, nullptr);
  env_spawn(receiver, nullptr);
  env_join();
  sx_fail("C20: everyone finished although a connection ended early");
}
// ---------------------------------------------------------------- message buffers alone
// An exactly sized physical buffer; all bytes already on the way; reads of any size.
template <size_t SZ> struct Exact {
  char* p = new char[SZ];
  ~Exact() { delete[] p; }
  PhysicalBuffer<SZ>* get() { return reinterpret_cast<PhysicalBuffer<SZ>*>(p); }
};
template <class B> static void stream_into(B* buf, size_t unit, int n, int more, uint64_t bud) {
  int in, out;
  env_socketpair(0, &out, &in);
  std::vector<char> m(unit);
  for (int i = 0; i < n + more; i++) { make(1, i, (uint8_t*)m.data(), unit); sockets::common::Send(out, m.data(), unit); }
  budgets(bud);
  int read = 0;
  // two batches over the same buffer; the later one must find its first byte
  for (int part = 0; part < 2; part++) {
    int upto = part ? n + more : n;
    while (read < upto) {
      sockets::common::Read(in, upto - read, buf);
      SX_ASSERT((int)buf->Size() <= upto - read, "C13: more messages than asked for");
      for (auto&& x : *buf) {
        const uint8_t* q;
        if constexpr (std::is_same<B, CipherLogicalBuffer>::value) q = (const uint8_t*)x; else q = (const uint8_t*)&x;
        SX_ASSERT(is(1, read, q, unit), "C13: a message is lost, duplicated or torn");
        read++;
      }
      buf->Clear();
    }
  }
  SX_ASSERT(W->conn[0].d[0].rpos == W->conn[0].d[0].wlen, "C13: bytes are left over");
  sx_cover("end");
}
template <class T, size_t SZ> static void logical(int n, int more, uint64_t bud) { Exact<SZ> e; LogicalBuffer<T> b(e.get()); stream_into(&b, sizeof(T), n, more, bud); }
template <size_t SZ> static void cipher(int cs, int n, int more, uint64_t bud) { Exact<SZ> e; CipherLogicalBuffer b(e.get(), cs); stream_into(&b, cs, n, more, bud); }
// args: kind and size, onion size, messages, messages of the next batch, symbolic contents, budgets
extern "C" void h_logical() {
  int k = sx_arg(0), n = sx_arg(2), m = sx_arg(3);
  uint64_t b = sx_arg(5);
  CS = sx_arg(1);
  SYMB = sx_arg(4);
  env_init();
  make_ids();
  switch (k) {
    case 0: return logical<Query, 24>(n, m, b);
    case 1: return logical<Query, 36>(n, m, b);
    case 2: return logical<Query, 47>(n, m, b);
    case 3: return logical<Response, 104>(n, m, b);
    case 4: return logical<Response, 160>(n, m, b);
    case 5: return logical<OfflineSecret, 152>(n, m, b);
    case 6: return logical<OfflineSecret, 160>(n, m, b);
    case 7: return cipher<60>(CS, n, m, b);
    case 8: return cipher<71>(CS, n, m, b);
    default: return cipher<160>(CS, n, m, b);
  }
}
// however many more messages are to come, the ones that arrived are taken up. args: kind, onion size, messages, budgets
template <class B> static void any_count(B* buf, size_t unit, int n) {
  int in, out;
  env_socketpair(0, &out, &in);
  std::vector<char> m(unit);
  for (int i = 0; i < n; i++) { make(1, i, (uint8_t*)m.data(), unit); sockets::common::Send(out, m.data(), unit); }
  budgets(sx_arg(3));
  uint32_t left = sx_sym("count", 32, n, 0xffffffffu);
  int read = 0;
  while (read < n) {
    uint32_t before = W->conn[0].d[0].rpos;
    sockets::common::Read(in, left, buf);
    SX_ASSERT(W->conn[0].d[0].rpos > before, "C13: messages that arrived are not taken up");
    for (auto&& x : *buf) {
      const uint8_t* q;
      if constexpr (std::is_same<B, CipherLogicalBuffer>::value) q = (const uint8_t*)x; else q = (const uint8_t*)&x;
      SX_ASSERT(read < n && is(1, read, q, unit), "C13: a message is lost, duplicated or torn");
      read++;
      left--;
    }
    buf->Clear();
  }
  SX_ASSERT(W->conn[0].d[0].rpos == W->conn[0].d[0].wlen, "C13: bytes are left over");
  sx_cover("end");
}
extern "C" void h_any_count() {
  int k = sx_arg(0), n = sx_arg(2);
  CS = sx_arg(1);
  SYMB = 0;
  env_init();
  make_ids();
  if (k == 0) { Exact<60> e; LogicalBuffer<Query> b(e.get()); return any_count(&b, sizeof(Query), n); }
  if (k == 1) { Exact<160> e; LogicalBuffer<Response> b(e.get()); return any_count(&b, sizeof(Response), n); }
  if (k == 2) { Exact<160> e; LogicalBuffer<OfflineSecret> b(e.get()); return any_count(&b, sizeof(OfflineSecret), n); }
  Exact<160> e; CipherLogicalBuffer b(e.get(), CS); any_count(&b, CS, n);
}
// ---------------------------------------------------------------- siblings
static config::PartyConfig party() {
  config::PartyConfig p;
  p.shared_seed = 1;
  for (int s = 0; s < SERVERS; s++) p.servers.push_back({s, 3000 + s, 4000 + s, "127.0.0.1"});
  return p;
}
static uint64_t BUD;
template <class B, class F> static void drain(int n, B&& rd, F&& ok) {
  int read = 0;
  while (read < n) {
    auto& b = rd(n - read);
    SX_ASSERT((int)b.Size() <= n - read, "C13: more messages than asked for");
    for (auto&& x : b) { SX_ASSERT(ok(read, x), "C13: a message between siblings is lost, duplicated or torn"); read++; }
    b.Clear();
  }
}
static void sibling(void* a) {
  int me = (int)(long)a;
  sockets::ParallelSocket s(me, SERVERS, CS);
  s.Initialize(party());
  auto id = [&](int from, int to, int i) { return (from * 5 + to * 11 + i) % 64; };
  s.BroadcastCount(MARK[me]);
  for (int o = 0; o < SERVERS; o++) if (o != me) { s.SendCount(o, MARK[4 + me] + o); }
  for (int o = 0; o < SERVERS; o++) if (o != me) {
    SX_ASSERT(s.ReadCount(o) == MARK[o], "C13: count of a sibling arrives changed");
    SX_ASSERT(s.ReadCount(o) == (index_t)(MARK[4 + o] + me), "C13: count of a sibling arrives at the wrong place");
  }
  s.BroadcastReady();
  s.WaitForReady();
  std::vector<char> c(CS);
  for (int i = 0; i < NC; i++) for (int o = 0; o < SERVERS; o++) if (o != me) { make(0, id(me, o, i), (uint8_t*)c.data(), CS); s.SendCipher(o, c.data()); }
  s.FlushCiphers();
  s.BroadcastReady();
  for (int o = 0; o < SERVERS; o++) if (o != me) drain(NC, [&](int k) -> CipherLogicalBuffer& { return s.ReadCiphers(o, k); }, [&](int i, char* p) { return is(0, id(o, me, i), (uint8_t*)p, CS); });
  s.WaitForReady();
  for (int i = 0; i < NQ; i++) s.BroadcastSecret(value<OfflineSecret>(1, id(me, 0, i)));
  s.FlushSecrets();
  for (int o = 0; o < SERVERS; o++) if (o != me) drain(NQ, [&](int k) -> LogicalBuffer<OfflineSecret>& { return s.ReadSecrets(o, k); }, [&](int i, OfflineSecret& x) { return is(1, id(o, 0, i), (uint8_t*)&x, sizeof x); });
  for (int i = 0; i < NQ; i++) for (int o = 0; o < SERVERS; o++) if (o != me) s.SendQuery(o, value<Query>(2, id(me, o, i)));
  s.FlushQueries();
  for (int o = 0; o < SERVERS; o++) if (o != me) drain(NQ, [&](int k) -> LogicalBuffer<Query>& { return s.ReadQueries(o, k); }, [&](int i, Query& x) { return is(2, id(o, me, i), (uint8_t*)&x, sizeof x); });
  for (int i = 0; i < NQ; i++) for (int o = 0; o < SERVERS; o++) if (o != me) s.SendResponse(o, value<Response>(3, id(me, o, i)));
  for (int o = 0; o < SERVERS; o++) if (o != me) s.FlushResponses(o);
  s.BroadcastReady();
  for (int o = 0; o < SERVERS; o++) if (o != me) drain(NQ, [&](int k) -> LogicalBuffer<Response>& { return s.ReadResponses(o, k); }, [&](int i, Response& x) { return is(3, id(o, me, i), (uint8_t*)&x, sizeof x); });
  s.WaitForReady();
  env_finish();
}
// args: onion size, onions per sibling, other messages per sibling, servers, symbolic contents, budgets
extern "C" void h_siblings() {
  CS = sx_arg(0); NC = sx_arg(1); NQ = sx_arg(2); SERVERS = sx_arg(3); SYMB = sx_arg(4);
  env_init();
  CUT = -1;
  make_ids();
  budgets(sx_arg(5));
  for (int s = 0; s < SERVERS; s++) env_spawn(sibling, (void*)(long)s);
  env_join();
  SX_ASSERT(W->nconn == SERVERS * (SERVERS - 1) / 2, "C13: wrong number of connections between siblings");
  for (int c = 0; c < W->nconn; c++) for (int d = 0; d < 2; d++) SX_ASSERT(W->conn[c].d[d].rpos == W->conn[c].d[d].wlen, "C13: bytes are left over");
  sx_cover("end");
}
// ---------------------------------------------------------------- who has data
// What Poll reports is exactly which siblings that are not ignored have data. args: servers, me
static int HAS, IGN, TGT;
static int* SENT;
extern "C" unsigned sx_sleep(unsigned);
static void poller(void* a) {
  int me = (int)(long)a;
  sockets::ParallelSocket s(me, SERVERS, CS);
  s.Initialize(party());
  if (me != TGT) {
    if (HAS >> me & 1) s.SendCount(TGT, 50 + me);
    ++*SENT;
    env_wake();
    SX_ASSERT(s.ReadCount(TGT) == (index_t)(90 + me), "C13: count of a sibling arrives changed");
    env_finish();
  }
  while (*SENT < SERVERS - 1) sx_sleep(1);
  int want = 0, n = 0;
  for (int o = 0; o < SERVERS; o++) if (o != me) {
    if (IGN >> o & 1) s.IgnoreServer(o);
    if ((HAS & ~IGN) >> o & 1) want++;
  }
  ServersMap<bool> outs(me, SERVERS, false);
  if (want) n = s.Poll(&outs, -1);
  else n = s.Poll(&outs, 0);
  SX_ASSERT(n == want, "C14: number of siblings with data is wrong");
  for (int o = 0; o < SERVERS; o++) if (o != me) SX_ASSERT(outs[o] == (bool)((HAS & ~IGN) >> o & 1), "C14: the wrong sibling is reported to have data");
  s.ResetServers();
  ServersMap<bool> all(me, SERVERS, false);
  n = s.Poll(&all, 0);
  want = 0;
  for (int o = 0; o < SERVERS; o++) if (o != me) { bool w = HAS >> o & 1; want += w; SX_ASSERT(all[o] == w, "C14: an ignored sibling is not heard again after the reset"); }
  SX_ASSERT(n == want, "C14: number of siblings with data is wrong");
  for (int o = 0; o < SERVERS; o++) if (o != me) { if (HAS >> o & 1) SX_ASSERT(s.ReadCount(o) == (index_t)(50 + o), "C13: count of a sibling arrives changed"); }
  for (int o = 0; o < SERVERS; o++) if (o != me) s.SendCount(o, 90 + o);
  env_finish();
}
extern "C" void h_poll() {
  SERVERS = sx_arg(0); TGT = sx_arg(1); CS = 20;
  env_init();
  CUT = -1;
  HAS = sx_choice("has_data", 0, (1 << SERVERS) - 1) & ~(1 << TGT);
  IGN = sx_choice("ignored", 0, (1 << SERVERS) - 1) & ~(1 << TGT);
  SENT = (int*)sx_shared_alloc(sizeof(int));
  *SENT = 0;
  for (int s = 0; s < SERVERS; s++) env_spawn(poller, (void*)(long)s);
  env_join();
  sx_cover("end");
}
// the siblings' side of an early end. args: onion size, onions, other messages, servers, connection, direction, error
extern "C" void h_cut_siblings() {
  CS = sx_arg(0); NC = sx_arg(1); NQ = sx_arg(2); SERVERS = sx_arg(3);
  int dir = sx_arg(5);
  env_init();
  make_ids();
  // connecting side declares itself with one byte
  uint32_t total = (dir == 0 ? 1 : 0) + 8 + 1 + (uint32_t)NC * CS + 1 + NQ * (uint32_t)(sizeof(OfflineSecret) + sizeof(Query) + sizeof(Response)) + 1;
  CUT = sx_choice("cut", 0, total - 1);
  W->cut_at = CUT; W->cut_conn = sx_arg(4); W->cut_dir = dir; W->cut_err = sx_arg(6);
  sx_abort_ok(1);
  for (int s = 0; s < SERVERS; s++) env_spawn(sibling, (void*)(long)s);
  env_join();
  sx_fail("C20: everyone finished although a connection ended early");
}
