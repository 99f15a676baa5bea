// Whole-protocol runs: every role is a process of the environment model, running the real code;
// the harness reads what went over the connections.
// C01, C02, C03, C04 (injection), C17 (tags), C19, C22, C14.
#include <math.h>
#include <string.h>
#include <memory>
#include <unordered_map>
#include <vector>
#include "DPPIR/config/config.h"
#include "DPPIR/noise/noise.h"
#include "DPPIR/onion/onion.h"
#include "DPPIR/protocol/backend/backend.h"
#include "DPPIR/protocol/client/client.h"
#include "DPPIR/protocol/parallel_party/parallel_party.h"
#include "DPPIR/protocol/party/party.h"
#include "DPPIR/sockets/server_socket.h"
#include "DPPIR/types/database.h"
#include "env.h"
#ifdef WITH_MAIN
#include <fstream>
#include <iostream>
#include "absl/flags/flag.h"
namespace sxio { Stream in; }
int dppir_main(int argc, char** argv);
#endif
using namespace DPPIR;

enum { FULL = 0, ONLINE = 1, OFFLINE = 2 };
enum { CK_ANSWER = 1, CK_COUNT = 2, CK_NOISE = 4, CK_TAGS = 8, CK_READY = 16, CK_OFFORDER = 32, CK_ONORDER = 64, CK_SHARES = 128, CK_MASKS = 256, CK_BATCH = 512 };
static int MODE, P, S, DB, NOISE, SYM, CHECKS;
static uint64_t QS, SHUF, SCHED;
static config::Config CONF;
static uint32_t cnt_xy, cnt_key, cnt_buf;

static int BIG, BIGQ[8], BIGSYM;
static int queries(int s) { return BIG ? BIGQ[s] : (QS >> (4 * s)) & 15; }
static int pid_of(int role, int s) { return 1 + role * S + s; }  // role 0 clients, 1..P parties
static uint32_t hash32(uint32_t a) { a ^= a >> 16; a *= 0x7feb352du; a ^= a >> 15; a *= 0x846ca68bu; a ^= a >> 16; return a; }

static uint32_t draw(uint32_t bound) {
  if (bound == (uint32_t)DB) {
    cnt_key++;
    // in long batches one key, where a counter might wrap, is arbitrary
    if ((SYM & 1) && (!BIG || cnt_key == (uint32_t)BIGSYM)) return sx_sym("key", 32, 0, DB - 1);
    return hash32(sx_self() * 131 + cnt_key) % DB;
  }
  cnt_xy++;
  if (bound == INCREMENTAL_PRIME && (SYM & 2)) return sx_sym("x", 32, 0, INCREMENTAL_PRIME - 1);
  uint32_t h = hash32(sx_self() * 7919 + cnt_xy * 2 + 1);
  return bound ? h % bound : h;
}
static void fill(uint8_t* b, size_t n) {
  if (SYM & 4) {
    for (size_t i = 0; i + 4 <= n; i += 4) { uint32_t v = sx_sym("mask", 32, 0, 0xffffffffu); memcpy(b + i, &v, 4); }
    for (size_t i = n & ~3ul; i < n; i++) b[i] = sx_sym("mask8", 8, 0, 255);
    return;
  }
  for (size_t i = 0; i < n; i++) b[i] = hash32(sx_self() * 65537 + cnt_buf++);
}
// noise amounts as a choice: none, the mean, the maximum. AMOUNTS of them per server, the others at the mean
static int AMOUNTS;
static int amount(int i) {
  static int pick;
  if (i % 2 == 0) pick = i / 2 < AMOUNTS ? (int)sx_choice("amount", 0, 2) : 1;
  if (i % 2 == 0) return pick == 0 ? 0 : 0x7fffffff;
  return pick == 1 ? 0x40000000 : 0x7ffffff0;
}
// seeds of which every bit counts
static int shared_seed(int p) { return 0x52000001 + p * 0x01010100; }
static int local_seed(int p, int s) { return 0x21000003 + p * 0x02010000 + s * 0x00020200; }
static void make_config() {
  CONF.db_size = DB;
  if (NOISE) {
    CONF.delta = 0.5;
    CONF.epsilon = 2 * 0.6931471805599453 / (NOISE - 1 + 0.5);  // the default build adds NOISE-1 per row
  } else { CONF.delta = 0; CONF.epsilon = 0; }
  CONF.party_count = P;
  CONF.server_count = S;
  for (int p = 0; p < P; p++) {
    config::PartyConfig pc;
    pc.shared_seed = shared_seed(p);
    onion::GenerateKeyPair(&pc.onion_pkey, &pc.onion_skey);
    for (int s = 0; s < S; s++) pc.servers.push_back({local_seed(p, s), 3000 + p * 16 + s, 4000 + p * 16 + s, "127.0.0.1"});
    CONF.parties.push_back(pc);
  }
}
#ifdef WITH_MAIN
// the same, started from the command line with a configuration file
static int* RC;
static void start(const char* role, int party, int server, int64_t n, bool with_party) {
  *sx_flag("config")->s = "conf";
  *sx_flag("stage")->s = MODE == FULL ? "all" : MODE == ONLINE ? "online" : "offline";
  *sx_flag("role")->s = role;
  if (with_party) *sx_flag("party_id")->i = party;
  *sx_flag("server_id")->i = server;
  if (n >= 0) *sx_flag("queries")->l = n;
  char name[] = "main";
  char* argv[] = {name, nullptr};
  int rc = dppir_main(1, argv);
  RC[sx_self()] = rc + 1;
  SX_ASSERT(rc == 0, "C24: a process that was started properly reports failure");
  env_finish();
}
static void client_main(void* a) { start("client", 0, (int)(long)a, queries((int)(long)a), false); }
static void party_main(void* a) { start("party", (int)(long)a >> 8, (int)(long)a & 255, -1, true); }
#else
static void client_main(void* a) {
  int s = (int)(long)a;
  { protocol::Client c(s, config::Config(CONF), Database(DB)); c.Start(queries(s), MODE != ONLINE, MODE != OFFLINE); }
  env_finish();
}
static void party_main(void* a) {
  int s = (int)(long)a & 255, p = (int)(long)a >> 8;
  if (p == P - 1) { protocol::BackendParty b(s, config::Config(CONF), Database(DB)); b.Start(MODE != ONLINE, MODE != OFFLINE); env_finish(); }
  if (S == 1) { protocol::Party b(p, s, config::Config(CONF), Database(DB)); b.Start(MODE != ONLINE, MODE != OFFLINE); env_finish(); }
  { protocol::ParallelParty b(p, s, config::Config(CONF), Database(DB)); b.Start(MODE != ONLINE, MODE != OFFLINE); }
  env_finish();
}
#endif

// ---------------------------------------------------------------- what went over the wire
struct Onion { std::vector<OfflineSecret> layer; };  // for the parties from the receiving one on
struct Hop {  // one server's link of one hop
  Conn* c; int ci;
  uint32_t n;
  std::vector<Onion> onions;
  std::vector<Query> q;
  std::vector<Response> r;
};
static std::vector<std::vector<Hop>> H;  // [hop][server]
static int readies() { return MODE == FULL ? 2 : MODE == ONLINE ? 1 : 2; }

static void parse() {
  H.resize(P);
  for (int h = 0; h < P; h++)
    for (int s = 0; s < S; s++) {
      Hop x;
      x.c = nullptr;
      for (int i = 0; i < W->nconn; i++)
        if (W->conn[i].pid[0] == pid_of(h, s) && W->conn[i].pid[1] == pid_of(h + 1, s)) { SX_ASSERT(!x.c, "two connections between the same servers"); x.c = &W->conn[i]; x.ci = i; }
      SX_ASSERT(x.c, "a server is not connected to the next hop");
      Dir &f = x.c->d[0], &b = x.c->d[1];
      SX_ASSERT(f.wlen >= 4, "no batch size is announced");
      memcpy(&x.n, f.data, 4);
      x.n = sx_fork(x.n);
      SX_ASSERT(x.n <= (uint32_t)(BIG ? BIG : 64), "announced batch size is out of any proportion");
      size_t cs = onion::CipherSize(P - h);
      size_t offl = MODE == ONLINE ? 0 : (size_t)x.n * cs, onl = MODE == OFFLINE ? 0 : (size_t)x.n * sizeof(Query);
      SX_ASSERT(f.wlen == 4 + offl + onl, "C03: messages sent differ from the announced count");
      SX_ASSERT(b.wlen == readies() + (MODE == OFFLINE ? 0 : (size_t)x.n * sizeof(Response)), "C03: not exactly one response per message");
      SX_ASSERT(f.rpos == f.wlen && b.rpos == b.wlen, "bytes left unread on a connection");
      for (int k = 0; k < readies(); k++) SX_ASSERT(b.data[k] == 1, "C19: malformed readiness report");
      uint8_t* p = f.data + 4;
      for (uint32_t i = 0; MODE != ONLINE && i < x.n; i++, p += cs) {
        Onion o;
        std::unique_ptr<char[]> cur(new char[cs]);
        memcpy(cur.get(), p, cs);
        for (int k = h; k < P; k++) {
          auto l = onion::OnionDecrypt(cur.get(), P - k, CONF.parties[k].onion_pkey, CONF.parties[k].onion_skey);
          o.layer.push_back(l.Msg());
          size_t rest = k + 1 < P ? onion::CipherSize(P - k - 1) : 0;
          memcpy(cur.get(), l.NextLayer(), rest);
        }
        x.onions.push_back(o);
      }
      for (uint32_t i = 0; MODE != OFFLINE && i < x.n; i++, p += sizeof(Query)) { Query q; memcpy((void*)&q, p, sizeof q); x.q.push_back(q); }
      p = b.data + readies();
      for (uint32_t i = 0; MODE != OFFLINE && i < x.n; i++, p += sizeof(Response)) { Response r; memcpy((void*)&r, p, sizeof r); x.r.push_back(r); }
      H[h].push_back(x);
    }
}
static std::unordered_map<uint64_t, const Onion*> IDX[8];  // of each hop, for long batches
static const Onion* onion_of(int h, uint64_t tag) {
  if (BIG) {
    if (IDX[h].empty()) for (Hop& x : H[h]) for (Onion& o : x.onions) IDX[h][o.layer[0].tag] = &o;
    auto it = IDX[h].find(tag);
    return it == IDX[h].end() ? nullptr : it->second;
  }
  const Onion* f = nullptr;
  for (Hop& x : H[h]) for (Onion& o : x.onions) if (o.layer[0].tag == tag) f = &o;
  return f;
}
// the key a query stands for at hop h, and the mask its response carries there
static uint32_t open_query(int h, const Query& q, uint8_t mask[sizeof(Response)]) {
  memset(mask, 0, sizeof(Response));
  if (MODE == ONLINE) return q.tally;
  const Onion* o = onion_of(h, q.tag);
  SX_ASSERT(o, "C17: a query arrives whose secret was never installed");
  uint64_t t = q.tally;
  for (const OfflineSecret& l : o->layer) {
    t = (t * l.share.y + l.share.x) % INCREMENTAL_PRIME;
    for (size_t b = 0; b < sizeof(Response); b++) mask[b] ^= (uint8_t)l.preshare[b];
  }
  return t;
}
static void check_answers(int h) {
  Database db(DB);
  for (int s = 0; s < S; s++) {
    Hop& x = H[h][s];
    uint32_t di = 0;
    if (h == 0) SX_ASSERT(x.n == (uint32_t)queries(s), "C03: the client announces another number of queries");
    for (uint32_t i = 0; i < x.n; i++) {
      uint8_t mask[sizeof(Response)];
      uint32_t key = open_query(h, x.q[i], mask);
      if (h == 0) {
        while (di < (uint32_t)W->ndraw && !(W->draw[di].pid == pid_of(0, s) && W->draw[di].bound == (uint32_t)DB)) di++;
        SX_ASSERT(di < (uint32_t)W->ndraw, "C01: more queries than chosen keys");
        SX_ASSERT(key == W->draw[di].val, "C01: a query does not stand for the key the client chose");
        key = W->draw[di].val;
        di++;
        sx_note("key", key);
      }
      SX_ASSERT(key < (uint32_t)DB, "C04: a query for a row that does not exist");
      Response want = db.Lookup(key);
      uint32_t bad = 0;
      for (size_t b = 0; b < sizeof(Response); b++) bad |= (uint32_t)(uint8_t)(((uint8_t*)&x.r[i])[b] ^ mask[b] ^ ((uint8_t*)&want)[b]);
      SX_ASSERT(bad == 0, h == 0 ? (S == 1 ? "C01: a query is not answered with its own row" : "C02: a query is not answered with its own row") : "C03: a response is not at the position of its query");
      sx_note("value", x.r[i].value);
    }
  }
}
static uint32_t hop_total(int h) { uint32_t t = 0; for (Hop& x : H[h]) t += x.n; return t; }
// amounts of dummies of each hop: [hop][server][row], for the rows the server owns
static std::vector<std::vector<std::vector<uint32_t>>> NO;
static uint32_t total_noise(int h) { uint32_t t = 0; for (auto& v : NO[h]) for (uint32_t n : v) t += n; return t; }
static int replay_at, replay_end;
static std::vector<int> replay;
static int replay_rand() { return replay_at < (int)replay.size() ? replay[replay_at++] : (replay_end = 1, 0); }
static std::vector<uint32_t> sorted(std::vector<uint32_t> v) {
  for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j + 1 < v.size(); j++) if (v[j] > v[j + 1]) std::swap(v[j], v[j + 1]);
  return v;
}
static bool sampled_from(const std::vector<uint32_t>& amounts, int pid) {
  // some run of what this process drew from the source yields these amounts, in some order of the rows
  replay.clear();
  for (int i = 0; i < W->nrl; i++) if (W->rl[i].pid == pid) replay.push_back(W->rl[i].v);
  noise::NoiseDistribution d(CONF.epsilon, CONF.delta);
  auto want = sorted(amounts);
  bool found = false;
  env_rand_cb = replay_rand;
  for (size_t from = 0; from <= replay.size() && !found; from++) {
    replay_at = from;
    replay_end = 0;
    std::vector<uint32_t> got;
    for (size_t k = 0; k < amounts.size() && !replay_end; k++) got.push_back(d.Sample());
    found = !replay_end && sorted(got) == want;
  }
  env_rand_cb = nullptr;
  return found;
}
static void check_counts() {
  for (int h = 1; h < P; h++) {
    uint32_t in = hop_total(h - 1), out = hop_total(h);
#ifndef DPPIR_SAMPLE
    uint32_t noise = DB * (NOISE ? NOISE - 1 : 0);
    SX_ASSERT(out == in + noise, "C03: forwarded messages are not the received ones plus the noise");
#else
    SX_ASSERT(out >= in, "C03: forwarded messages are not the received ones plus the noise");
#endif
    for (int s = 0; s < S; s++) {
      uint32_t per = out / S;
      SX_ASSERT(H[h][s].n == (s == S - 1 ? out - per * (S - 1) : per), "C03: load is not balanced over the servers");
    }
    sx_note("out", out);
  }
}
static void check_noise() {
  NO.assign(P, {});
  for (int h = 1; h < P; h++) {
    for (int s = 0; s < S; s++) {
      auto r = noise::FindRange(s, S, DB);
      std::vector<uint32_t> am;
      for (DPPIR::key_t row = r.first; row < r.second; row++) {
        uint32_t in = 0, out = 0;
        uint8_t m[sizeof(Response)];
        for (int t = 0; t < S; t++) {
          for (Query& q : H[h - 1][t].q) in += open_query(h - 1, q, m) == (uint32_t)row;
          for (Query& q : H[h][t].q) out += open_query(h, q, m) == (uint32_t)row;
        }
#ifndef DPPIR_SAMPLE
        SX_ASSERT(out == in + (NOISE ? NOISE - 1 : 0), "C04: a row does not get exactly the amount of dummy queries meant for it");
#else
        SX_ASSERT(out >= in, "C04: queries for a row got lost");
#endif
        sx_note("noise", out - in);
        am.push_back(out - in);
      }
      SX_ASSERT(sampled_from(am, pid_of(h, s)), "C04: the amounts of dummy queries per row are not the sampled ones");
      NO[h].push_back(am);
    }
    SX_ASSERT(hop_total(h) == hop_total(h - 1) + total_noise(h), "C04: dummy queries for rows nobody owns");
  }
}
static void check_tags() {
  for (int h = 0; h < P; h++) {
    std::vector<uint64_t> t, q;
    for (Hop& x : H[h]) { for (Onion& o : x.onions) t.push_back(o.layer[0].tag); for (Query& y : x.q) q.push_back(y.tag); }
    for (size_t i = 0; i < t.size(); i++) for (size_t j = 0; j < i; j++) SX_ASSERT(t[i] != t[j], "C17: two secrets arrive at a party under the same tag");
    for (size_t i = 0; i < q.size(); i++) for (size_t j = 0; j < i; j++) SX_ASSERT(q[i] != q[j], "C17: two queries arrive at a party under the same tag");
    for (uint64_t y : q) SX_ASSERT(onion_of(h, y), "C17: a query arrives whose secret was never installed");
    // each hop's secret names the tag under which the next hop gets it
    if (h + 1 < P)
      for (Hop& x : H[h]) for (Onion& o : x.onions) {
        const Onion* n = onion_of(h + 1, o.layer[0].next_tag);
        SX_ASSERT(n && n->layer[0].tag == o.layer[1].tag, "C17: the tag a party passes on is not the one the next party knows");
        bool same = true;
        for (size_t b = 0; b < sizeof(OfflineSecret); b++) same &= ((uint8_t*)&n->layer[0])[b] == ((uint8_t*)&o.layer[1])[b];
        SX_ASSERT(same, "C17: a secret changed on its way");
      }
  }
}

// ---------------------------------------------------------------- fresh randomness
// What the parties are given, for every query and every party, does not depend on each other: with the
// draws arbitrary, no two additive parts need be equal, and no masks need cancel in any byte.
static void goal(const char* what, int k, int reached) {
  char n[32];
  int at = 0;
  while (what[at]) { n[at] = what[at]; at++; }
  n[at++] = '#';
  if (k > 999) n[at++] = '0' + k / 1000;
  if (k > 99) n[at++] = '0' + k / 100 % 10;
  if (k > 9) n[at++] = '0' + k / 10 % 10;
  n[at++] = '0' + k % 10;
  n[at] = 0;
  sx_goal(n);
  sx_cover_if(reached, n);
}
static void check_fresh() {
  std::vector<OfflineSecret> all;
  for (int h = 0; h < P; h++) for (Hop& x : H[h]) for (Onion& o : x.onions) all.push_back(o.layer[0]);
  int n = all.size(), k = 0;
  if (CHECKS & CK_SHARES) {
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) {
      SX_ASSERT(all[i].share.y != all[j].share.y, "C10: a multiplier is used more than once");
      goal("C10: preshares drawn afresh", k++, (int)(all[i].share.x != all[j].share.x));
    }
  }
  if (CHECKS & CK_MASKS) {
    for (int m = 1; m < 1 << n; m++) {
      int bits = __builtin_popcount(m);
      if (n > 6 && bits > 2) continue;
      uint32_t ok = 1;
      for (size_t b : {(size_t)0, (size_t)6, (size_t)33, sizeof(preshare_t) - 1}) {  // every byte: h_masks_uniform
        uint8_t v = 0;
        for (int i = 0; i < n; i++) if (m >> i & 1) v ^= (uint8_t)all[i].preshare[b];
        ok &= v != 0;
      }
      goal("C11: masks drawn afresh", k++, (int)ok);
    }
  }
}
// ---------------------------------------------------------------- order of events
// position in the event list at which the given byte of a direction was sent / received (-1: never)
static int when(int kind, Hop& x, int dir, uint32_t byte) {
  for (int i = 0; i < W->nev; i++) {
    Event& e = W->ev[i];
    int side = kind == 1 ? dir : 1 - dir;
    if (e.kind == kind && e.conn == x.ci && e.side == side && byte >= e.off && byte < e.off + e.len) return i;
  }
  return -1;
}
// when the first so many bytes between siblings had arrived (-1: it never was that many)
static int sibling_done(int from, int to, uint32_t bytes) {
  for (int i = 0; i < W->nev; i++) {
    Event& e = W->ev[i];
    if (e.kind != 2 || e.off + e.len < bytes) continue;
    Conn& c = W->conn[e.conn];
    if (c.pid[e.side] == to && c.pid[1 - e.side] == from) return i;
  }
  return -1;
}
static void check_ready() {
  int R = readies();
  for (int h = 0; h < P; h++)
    for (int s = 0; s < S; s++) {
      Hop& x = H[h][s];
      size_t cs = onion::CipherSize(P - h);
      uint32_t offl = MODE == ONLINE ? 0 : x.n * cs;
      for (int k = 0; k < R; k++) {
        int got = when(2, x, 1, k), sent = when(1, x, 1, k);
        SX_ASSERT(got > sent && sent >= 0, "C19: readiness report lost");
        SX_ASSERT(sent > when(2, x, 0, 3), "C19: ready before the batch size is known");
        // nothing of the stage before its report
        uint32_t first = k == 0 ? 4 : 4 + offl;
        if (x.c->d[0].wlen > first) SX_ASSERT(when(1, x, 0, first) > got, "C19: a stage starts before the readiness report for it");
        if (k == 1 && offl) SX_ASSERT(sent > when(2, x, 0, 4 + offl - 1), "C19: ready for queries before all secrets arrived");
        if (h + 1 < P) {
          for (int t = 0; t < S; t++) {
            SX_ASSERT(sent > when(2, H[h + 1][t], 1, k), "C19: ready before the next hop (or a sibling) is");
          }
          uint32_t no = MODE == ONLINE ? 0 : H[h + 1][s].n * onion::CipherSize(P - h - 1);
          if (k == 1 && no) SX_ASSERT(sent > when(1, H[h + 1][s], 0, 4 + no - 1), "C19: ready for queries before the secrets were passed on");
        } else if (k == 1 && S > 1) {
          for (int t = 0; t < S; t++) {
            uint32_t no = H[h][t].n * cs;
            if (no) SX_ASSERT(sent > when(2, H[h][t], 0, 4 + no - 1), "C19: backend ready before its siblings have all secrets");
            // nor before they have those of each other
            for (int u = 0; u < S && MODE != ONLINE; u++) {
              if (u == t) continue;
              int last = sibling_done(pid_of(P, u), pid_of(P, t), 4 + H[h][u].n * sizeof(OfflineSecret));
              SX_ASSERT(sent > last, "C19: backend ready before its siblings have all secrets");
            }
          }
        }
      }
    }
}
// Nothing moves on before the whole batch is in, at all servers of the party.
static void check_batch() {
  for (int h = 0; h < P; h++)
    for (int s = 0; s < S; s++) {
      Hop& x = H[h][s];
      uint32_t cs = onion::CipherSize(P - h);
      uint32_t offl = MODE == ONLINE ? 0 : x.n * cs;
      if (h > 0 && x.n) {
        uint32_t before = onion::CipherSize(P - h + 1);
        int first_onion = offl ? when(1, x, 0, 4) : -1, first_query = MODE == OFFLINE ? -1 : when(1, x, 0, 4 + offl);
        for (int t = 0; t < S; t++) {
          Hop& in = H[h - 1][t];
          if (!in.n) continue;
          uint32_t in_offl = MODE == ONLINE ? 0 : in.n * before;
          if (offl) SX_ASSERT(first_onion > when(2, in, 0, 4 + in_offl - 1), "C25: an onion is passed on before the whole batch of the party is in");
          if (MODE != OFFLINE) SX_ASSERT(first_query > when(2, in, 0, 4 + in_offl + in.n * sizeof(Query) - 1), "C25: a query is passed on before the whole batch of the party is in");
        }
      }
      if (MODE != OFFLINE && x.n) {
        int first = when(1, x, 1, readies());
        SX_ASSERT(first > when(2, x, 0, 4 + offl + x.n * sizeof(Query) - 1), "C25: a response is returned before all queries are in");
        for (int t = 0; h + 1 < P && t < S; t++) {
          Hop& out = H[h + 1][t];
          if (out.n) SX_ASSERT(first > when(2, out, 1, readies() + out.n * sizeof(Response) - 1), "C25: a response is returned before all responses of the party are in");
        }
      }
      sx_note("events", W->nev);
    }
}
// ---------------------------------------------------------------- shuffled order
// the party under scrutiny: SHUF % 16; identity of a message by rank of its tag
static int rank(const std::vector<uint64_t>& t, uint64_t v) { int r = 0; for (uint64_t y : t) r += y < v; return r; }
static void cover_order() {
  int p = SHUF % 16;
  std::vector<uint64_t> t;
  for (Hop& x : H[p + 1]) for (Onion& o : x.onions) t.push_back(o.layer[0].tag);
  uint32_t n = t.size();
  uint32_t pos = 0;
  for (Hop& x : H[p + 1]) {
    for (uint32_t i = 0; i < x.n; i++, pos++) {
      if (CHECKS & CK_OFFORDER) sx_cover_id("offline", rank(t, x.onions[i].layer[0].tag) * n + pos);
      if (CHECKS & CK_ONORDER) sx_cover_id("online", rank(t, x.q[i].tag) * n + pos);
    }
  }
}

// args: mode, parties, servers, rows, noise (+ 16 * amounts chosen per server), queries (4 bits per server), symbolic values, shuffle, schedule, checks
//  symbolic values: 1 keys, 2 additive parts, 4 masks
//  shuffle: bit 8+s: local seed of server s of party (low 4 bits) symbolic; bit 4: its shared seed
//  schedule: low 4 bits: deviations from the default schedule, next 8 bits: of which kinds; bit 12: run ahead;
//    bit 13: short reads and writes (and ends) of every size; bit 14: connections end with an error
extern "C" void h_run() {
  MODE = sx_arg(0); P = sx_arg(1); S = sx_arg(2); DB = sx_arg(3); NOISE = sx_arg(4) & 15; AMOUNTS = sx_arg(4) >> 4;
  QS = sx_arg(5); SYM = sx_arg(6); SHUF = sx_arg(7); SCHED = sx_arg(8); CHECKS = sx_arg(9);
  env_init();
  env_uniform_cb = draw;
  env_randbuf_cb = fill;
  if (AMOUNTS) env_unseeded_cb = amount;
  W->dev = SCHED & 15;
  W->dev_kinds = (SCHED >> 4) & 255;
  W->run_ahead = (SCHED >> 12) & 1;
  W->dev_sizes = (SCHED >> 13) & 1;
  W->cut_err = (SCHED >> 14) & 1;
  W->rand_log = CHECKS & CK_NOISE;
  W->track_events = CHECKS & (CK_READY | CK_BATCH);
  make_config();
#ifdef WITH_MAIN
  config::WriteToFile(CONF, "conf");
  RC = (int*)sx_shared_alloc(sizeof(int) * ENV_MAXPROC);
#endif
  int p = SHUF % 16;
  if (SHUF & 16) env_symbolic_seed(shared_seed(p));
  for (int s = 0; s < S; s++) if (SHUF >> (8 + s) & 1) env_symbolic_seed(local_seed(p, s));
  if (CHECKS & (CK_OFFORDER | CK_ONORDER)) {
    uint32_t n = sx_arg(10);  // messages the party sends on
    if (CHECKS & CK_OFFORDER) sx_goal_ids("offline", n * n);
    if (CHECKS & CK_ONORDER) sx_goal_ids("online", n * n);
  }
  for (int s = 0; s < S; s++) env_spawn(client_main, (void*)(long)s);
  for (int q = 0; q < P; q++) for (int s = 0; s < S; s++) env_spawn(party_main, (void*)(long)(q << 8 | s));
  env_join();
  if (W->broken) sx_fail("C20: everyone finished although a connection was gone");
  parse();
  if ((CHECKS & CK_ANSWER) && MODE != OFFLINE) check_answers(0);
  if (CHECKS & CK_COUNT) { check_counts(); if (MODE != OFFLINE) for (int h = 1; h < P; h++) check_answers(h); }
  if ((CHECKS & CK_NOISE) && MODE != OFFLINE) check_noise();
  if ((CHECKS & CK_TAGS) && MODE != ONLINE) check_tags();
  if (CHECKS & CK_READY) check_ready();
  if (CHECKS & CK_BATCH) check_batch();
  if (CHECKS & (CK_SHARES | CK_MASKS)) check_fresh();
  if (CHECKS & (CK_OFFORDER | CK_ONORDER)) cover_order();
  sx_cover("end");
}
// some run of samples from what this process drew has these amounts, in any order
static bool sampled_many(const std::vector<uint32_t>& amounts, int pid) {
  replay.clear();
  for (int i = 0; i < W->nrl; i++) if (W->rl[i].pid == pid) replay.push_back(W->rl[i].v);
  noise::NoiseDistribution d(CONF.epsilon, CONF.delta);
  bool found = false;
  env_rand_cb = replay_rand;
  for (int from = 0; from < 2 && !found; from++) {
    std::vector<int> left(1024, 0);
    size_t off = amounts.size() ? 1 : 0;
    int wrong = 0;
    auto bump = [&](uint32_t v, int by) { if (v > 1023) v = 1023; wrong -= left[v] != 0; left[v] += by; wrong += left[v] != 0; };
    for (uint32_t a : amounts) bump(a, 1);
    std::vector<uint32_t> got;
    replay_at = from;
    replay_end = 0;
    found = !off;
    while (!found) {
      uint32_t v = d.Sample();
      if (replay_end) break;
      got.push_back(v);
      bump(v, -1);
      if (got.size() > amounts.size()) bump(got[got.size() - 1 - amounts.size()], 1);
      found = got.size() >= amounts.size() && wrong == 0;
    }
  }
  env_rand_cb = nullptr;
  return found;
}
// the same for many rows, all keys concrete
static void check_noise_many() {
  std::vector<std::vector<uint32_t>> n(P, std::vector<uint32_t>(DB, 0));
  uint8_t m[sizeof(Response)];
  for (int h = 0; h < P; h++) for (Hop& x : H[h]) for (Query& q : x.q) {
    uint32_t key = open_query(h, q, m);
    SX_ASSERT(key < (uint32_t)DB, "C04: a query for a row that does not exist");
    n[h][key]++;
  }
#ifndef DPPIR_SAMPLE
  for (int h = 1; h < P; h++) for (int row = 0; row < DB; row++)
    SX_ASSERT(n[h][row] == n[h - 1][row] + (NOISE ? NOISE - 1 : 0), "C04: a row does not get exactly the amount of dummy queries meant for it");
#else
  for (int h = 1; h < P; h++)
    for (int s = 0; s < S; s++) {
      auto r = noise::FindRange(s, S, DB);
      std::vector<uint32_t> am;
      for (DPPIR::key_t row = r.first; row < r.second; row++) {
        SX_ASSERT(n[h][row] >= n[h - 1][row], "C04: queries for a row got lost");
        am.push_back(n[h][row] - n[h - 1][row]);
      }
      SX_ASSERT(sampled_many(am, pid_of(h, s)), "C04: the amounts of dummy queries per row are not the sampled ones");
    }
#endif
}
static void check_tags_many() {
  for (int h = 0; h < P; h++) {
    std::unordered_map<uint64_t, int> t;
    size_t n = 0, m = 0;
    for (Hop& x : H[h]) for (Onion& o : x.onions) { t[o.layer[0].tag] = 1; n++; }
    SX_ASSERT(t.size() == n, "C17: two secrets arrive at a party under the same tag");
    for (Hop& x : H[h]) for (Query& y : x.q) {
      auto it = t.find(y.tag);
      SX_ASSERT(it != t.end(), "C17: a query arrives whose secret was never installed");
      SX_ASSERT(it->second == 1, "C17: two queries arrive at a party under the same tag");
      it->second = 2;
      m++;
    }
    SX_ASSERT(MODE == OFFLINE || m == n, "C17: a secret is left without its query");
    if (h + 1 < P)
      for (Hop& x : H[h]) for (Onion& o : x.onions) {
        const Onion* nx = onion_of(h + 1, o.layer[0].next_tag);
        SX_ASSERT(nx && nx->layer[0].tag == o.layer[1].tag, "C17: the tag a party passes on is not the one the next party knows");
      }
  }
}
// with a fixed random source: nothing is handed out twice
static void check_fresh_many(int masks) {
  std::unordered_map<uint64_t, int> seen, y;
  size_t n = 0;
  for (int h = 0; h < P; h++) for (Hop& x : H[h]) for (Onion& o : x.onions) {
    uint64_t v = (uint64_t)o.layer[0].share.y << 32 | o.layer[0].share.x;
    if (masks) {
      v = 0;
      for (size_t b = 0; b < sizeof(preshare_t); b++) v = (v ^ (uint8_t)o.layer[0].preshare[b]) * 0x100000001b3ull;
    }
    SX_ASSERT(!seen[v], masks ? "C11: a mask is used more than once" : "C10: a preshare is used more than once");
    seen[v] = 1;
    y[o.layer[0].share.y] = 1;
    n++;
  }
  // chance may repeat a multiplier now and then
  if (!masks) SX_ASSERT(y.size() + 2 + n / 64 >= n, "C10: a multiplier is used more than once");
}
// Long batches, everything concrete: where counters would wrap. args: mode, parties, servers, rows, noise, queries of each client (two), which query's key is arbitrary, noise is checked, checks
extern "C" void h_big() {
  MODE = sx_arg(0); P = sx_arg(1); S = sx_arg(2); DB = sx_arg(3); NOISE = sx_arg(4);
  BIGQ[0] = sx_arg(5); BIGQ[1] = sx_arg(6);
  BIGSYM = sx_arg(7);
  BIG = BIGQ[0] + BIGQ[1] + P * DB * NOISE * (sx_arg(8) ? 2 : 1);
  SYM = 1;
  env_init();
  size_t per = sizeof(Response);
  if (MODE != ONLINE && onion::CipherSize(P) > per) per = onion::CipherSize(P) + sizeof(Query);
  env_big(per * BIG + 64, BIG * (MODE == ONLINE ? 2 : 2 * P + 2) + 64);
  CHECKS = sx_arg(9);
#ifdef WITH_MAIN
  RC = (int*)sx_shared_alloc(sizeof(int) * ENV_MAXPROC);
#endif
  W->track_events = CHECKS & (CK_READY | CK_BATCH);
  if (W->track_events) env_big_events(200 * (BIG + 100));
  W->rand_log = sx_arg(8);
  if (sx_arg(8)) env_big_rand(P * S * (2 * DB + 64) + 4 * BIG);
  env_uniform_cb = draw;
  env_randbuf_cb = fill;
  make_config();
#ifdef WITH_MAIN
  config::WriteToFile(CONF, "conf");
#endif
  for (int s = 0; s < S; s++) env_spawn(client_main, (void*)(long)s);
  for (int q = 0; q < P; q++) for (int s = 0; s < S; s++) env_spawn(party_main, (void*)(long)(q << 8 | s));
  env_join();
  parse();
  if (MODE != OFFLINE) check_answers(0);
  if (!CHECKS) check_counts();
  if (sx_arg(8)) check_noise_many();
  if (CHECKS & CK_TAGS) check_tags_many();
  if (CHECKS & CK_READY) check_ready();
  if (CHECKS & CK_BATCH) check_batch();
  if (CHECKS & (CK_SHARES | CK_MASKS)) check_fresh_many(CHECKS & CK_MASKS);
  sx_cover("end");
}
#ifdef WITH_MAIN
static int64_t COUNT;
static void count_main(void* a) {
  start("client", 0, (int)(long)a, COUNT, false);
}
// C24: any number of queries is announced as it was given. args: mode, parties, servers, server
extern "C" void h_count() {
  MODE = sx_arg(0); P = sx_arg(1); S = sx_arg(2); DB = S + 1; NOISE = 2;
  int s = sx_arg(3);
  env_init();
  make_config();
  config::WriteToFile(CONF, "conf");
  RC = (int*)sx_shared_alloc(sizeof(int) * ENV_MAXPROC);
  COUNT = (int64_t)(uint32_t)sx_sym("queries", 32, 0, 0xffffffffu);
  env_spawn(count_main, (void*)(long)s);
  sockets::ServerSocket b(onion::CipherSize(P));
  b.Initialize(CONF.parties[0].servers[s].port);
  uint32_t got = b.ReadCount();
  SX_ASSERT(got == (uint32_t)COUNT, "C24: another number of queries is made than requested");
  sx_note("count", got);
  sx_cover("end");
  sx_exit_path();
}
// C24: command lines that cannot be carried out. Every flag has an arbitrary value (texts from a list).
// args: role, stage, configuration file, parties, servers of the configuration
extern "C" void h_refuse() {
  static const char* ROLES[] = {"client", "party", "", "backend", "Client"};
  static const char* STAGES[] = {"all", "online", "offline", "", "off", "both"};
  static const char* FILES[] = {"conf", "", "missing"};
  MODE = FULL; P = sx_arg(3); S = sx_arg(4); DB = S + 1; NOISE = 2;
  env_init();
  make_config();
  config::WriteToFile(CONF, "conf");
  int role = sx_arg(0), stage = sx_arg(1), file = sx_arg(2);
  int party = (int)(uint32_t)sx_sym("party_id", 32, 0, 0xffffffffu), server = (int)(uint32_t)sx_sym("server_id", 32, 0, 0xffffffffu);
  int64_t n = (int64_t)sx_sym("queries", 64, 0, ~0ull);
  *sx_flag("config")->s = FILES[file];
  *sx_flag("stage")->s = STAGES[stage];
  *sx_flag("role")->s = ROLES[role];
  *sx_flag("party_id")->i = party;
  *sx_flag("server_id")->i = server;
  *sx_flag("queries")->l = n;
  bool fine = role < 2 && stage < 3 && file == 0;
  if (fine) {
    bool s_ok = server >= 0 && server < S, p_ok = party >= 0 && party < P, q_ok = n >= 0 && n <= 0xffffffffll;
    // a client given a party id that does not exist may be refused or started
    if (role == 0) sx_assume(!(s_ok && q_ok)); else sx_assume(!(s_ok && p_ok));
  }
  sx_abort_ok(1);
  char name[] = "main";
  char* argv[] = {name, nullptr};
  int rc = dppir_main(1, argv);
  sx_abort_ok(0);
  SX_ASSERT(rc != 0, "C24: a command line that cannot be carried out is not refused");
  SX_ASSERT(W->nconn == 0 && W->nlist == 0 && W->fd[0][0].kind == 0, "C24: the network is used before the command line is checked");
  sx_note("rc", rc);
  sx_cover("refused");
}
#endif
