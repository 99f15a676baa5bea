// C17: keeping offline secrets.
#include <string.h>
#include <vector>
#include "DPPIR/types/state.h"
#include "env.h"
using namespace DPPIR;

static preshare_t some_mask(int i, bool sym) {
  preshare_t p;
  for (size_t b = 0; b < p.size(); b++) p[b] = (char)(i * 37 + b * 5);
  if (sym) for (size_t b : {(size_t)0, (size_t)17, p.size() - 1}) p[b] = (char)sx_sym("mask", 8, 0, 255);
  return p;
}
static OfflineSecret some_secret(int i, tag_t tag, bool sym) {
  OfflineSecret s;
  s.tag = tag;
  s.next_tag = sym ? sx_sym("next", 64, 0, ~0ull) : tag * 3 + 1;
  s.share.x = sym ? sx_sym("x", 32, 0, 0xffffffffu) : 7 * i + 1;
  s.share.y = sym ? sx_sym("y", 32, 0, 0xffffffffu) : 11 * i + 2;
  preshare_t m = some_mask(i, sym);
  memcpy((void*)&s.preshare, &m, sizeof m);
  return s;
}
static bool same(const preshare_t& a, const preshare_t& b) {
  uint32_t d = 0;
  for (size_t i = 0; i < a.size(); i++) d |= (uint8_t)(a[i] ^ b[i]);
  return d == 0;
}
static std::vector<OfflineSecret> batch(int n, int kind) {
  std::vector<OfflineSecret> v;
  for (int i = 0; i < n; i++) {
    // 0: any tags, 1: consecutive from an arbitrary base, 2: differing in the high half only, 3: concrete
    tag_t base = kind == 1 && i == 0 ? sx_sym("base", 64, 0, ~0ull) : 0;
    tag_t t = kind == 0 ? sx_sym("tag", 64, 0, ~0ull) : kind == 1 ? (i ? v[0].tag + i : base) : kind == 2 ? (tag_t)i << 32 : (tag_t)(i * 2654435761u);
    v.push_back(some_secret(i, t, kind != 3 || i < 3));
    for (int j = 0; j < i; j++) sx_assume(v[j].tag != t);
  }
  return v;
}
// every stored secret comes back under its tag. args: count, kind of tags, 0 party / 1 backend
extern "C" void h_lookup() {
  int n = sx_arg(0), kind = sx_arg(1), backend = sx_arg(2);
  env_init();
  auto v = batch(n, kind);
  PartyState p;
  BackendState b;
  if (backend) b.Initialize(false); else p.Initialize(false);
  for (auto& s : v) { if (backend) b.Store(s); else p.Store(s); }
  if (!backend) SX_ASSERT(p.size() == (index_t)n, "C17: number of stored secrets is wrong");
  for (int round = 0; round < 2; round++)  // also in another order, and more than once
    for (int k = 0; k < n; k++) {
      OfflineSecret& s = v[round ? n - 1 - k : k];
      preshare_t m;
      memcpy(&m, (void*)&s.preshare, sizeof m);
      if (backend) {
        b.LoadSecret(s.tag);
        SX_ASSERT((b.GetIncremental().x == s.share.x) & (b.GetIncremental().y == s.share.y), "C17: a stored share is not the one found under its tag");
        SX_ASSERT(same(b.GetPreshare(), m), "C17: a stored mask is not the one found under its tag");
      } else {
        p.LoadSecret(s.tag);
        SX_ASSERT(p.GetNextTag() == s.next_tag, "C17: a stored next tag is not the one found under its tag");
        SX_ASSERT((p.GetIncremental().x == s.share.x) & (p.GetIncremental().y == s.share.y), "C17: a stored share is not the one found under its tag");
        SX_ASSERT(same(p.GetPreshare(s.tag), m), "C17: a stored mask is not the one found under its tag");
        sx_note("next", p.GetNextTag());
      }
    }
  if (!backend) {
    // a copy iterates over exactly the stored secrets
    PartyState c = p;
    int seen = 0;
    for (auto it = c.begin(); it != c.end(); ++it) {
      seen++;
      uint32_t hit = 0;
      for (auto& s : v) {
        preshare_t m;
        memcpy(&m, (void*)&s.preshare, sizeof m);
        hit += (it->first == s.tag) & (it->second.next_tag == s.next_tag) & (it->second.incremental.x == s.share.x) & (it->second.incremental.y == s.share.y) & same(it->second.preshare, m);
      }
      SX_ASSERT(hit == 1, "C17: iteration yields something that was not stored");
    }
    SX_ASSERT(seen == n, "C17: iteration misses or repeats secrets");
  }
  sx_cover("end");
}
// a second secret under the same tag is refused, never silently swapped. args: backend, secrets before
extern "C" void h_clash() {
  int backend = sx_arg(0), n = sx_arg(1);
  env_init();
  auto v = batch(n, 0);
  OfflineSecret d = some_secret(9, v[0].tag, true);
  PartyState p;
  BackendState b;
  if (backend) b.Initialize(false); else p.Initialize(false);
  for (auto& s : v) { if (backend) b.Store(s); else p.Store(s); }
  sx_abort_ok(1);
  if (backend) b.Store(d); else p.Store(d);
  sx_fail("C17: two secrets are accepted under the same tag");
}
// identity material when the offline stage is left out. args: parties
extern "C" void h_simulated() {
  int n = sx_arg(0);
  env_init();
  PartyState p;
  BackendState b;
  ClientState c, z;
  p.Initialize(true);
  b.Initialize(true);
  c.Initialize(n, 5, false, true);
  z.Initialize(n, 5, true, true);
  tag_t t = sx_sym("tag", 64, 0, ~0ull);
  preshare_t zero;
  zero.fill(0);
  for (int k = 0; k < 3; k++) {
    p.LoadSecret(t + k);
    b.LoadSecret(t + k);
    SX_ASSERT((p.GetIncremental().x == 0) & (p.GetIncremental().y == 1) & (b.GetIncremental().x == 0) & (b.GetIncremental().y == 1), "C17: a simulated share is not the identity");
    SX_ASSERT(same(p.GetPreshare(t), zero) && same(b.GetPreshare(), zero), "C17: a simulated mask is not zero");
    c.LoadNext();
    z.LoadNext();
    SX_ASSERT(c.GetIncrementalShares().size() == (size_t)n && z.GetIncrementalShares().size() == (size_t)n, "C17: simulated shares are missing");
    for (int i = 0; i < n; i++) SX_ASSERT(c.GetIncrementalShares()[i].x == 0 && c.GetIncrementalShares()[i].y == 1 && z.GetIncrementalShares()[i].x == 0 && z.GetIncrementalShares()[i].y == 1, "C17: a simulated share is not the identity");
    SX_ASSERT(same(c.GetPreshare(), zero), "C17: a simulated mask is not zero");
    SX_ASSERT(c.GetTag() == z.GetTag(), "C17: simulated tags differ");
  }
  c.FinishSharing();
  for (int k = 0; k < 5; k++) { c.LoadNext(); SX_ASSERT(same(c.GetPreshare(), zero), "C17: a simulated mask is not zero"); }
  sx_cover("end");
}
// secrets are handed out once each, in order. args: secrets, parties, noise, fully symbolic
extern "C" void h_client() {
  int n = sx_arg(0), np = sx_arg(1), noise = sx_arg(2), sym = sx_arg(3);
  env_init();
  ClientState c;
  for (int round = 0; round < 2; round++) {  // also when initialised again
    c.Initialize(np, n, noise, false);
    std::vector<tag_t> tags;
    std::vector<std::vector<incremental_share_t>> inc;
    std::vector<preshare_t> masks;
    for (int i = 0; i < n; i++) {
      tags.push_back(sym ? sx_sym("tag", 64, 0, ~0ull) : 1000 * round + i);
      std::vector<incremental_share_t> v;
      for (int k = 0; k < np; k++) {
        incremental_share_t s;
        s.x = sym ? sx_sym("x", 32, 0, 0xffffffffu) : i * 8 + k;
        s.y = sym ? sx_sym("y", 32, 0, 0xffffffffu) : i * 8 + k + 1;
        v.push_back(s);
      }
      inc.push_back(v);
      masks.push_back(some_mask(i, sym));
      if (noise) c.AddNoiseSecret(tags[i], std::move(v)); else c.AddSecret(tags[i], std::move(v), masks[i]);
    }
    for (int i = 0; i < n; i++) {
      c.LoadNext();
      for (int again = 0; again < 2; again++) {
        SX_ASSERT(c.GetTag() == tags[i], "C17: secrets are not handed out in order, once each");
        const auto& g = c.GetIncrementalShares();
        SX_ASSERT(g.size() == (size_t)np, "C17: shares of a secret are missing");
        for (int k = 0; k < np; k++) SX_ASSERT((g[k].x == inc[i][k].x) & (g[k].y == inc[i][k].y), "C17: a secret's shares were changed");
        if (!noise) SX_ASSERT(same(c.GetPreshare(), masks[i]), "C17: a mask is not that of the query");
      }
      sx_note("tag", c.GetTag());
    }
    if (!noise) {
      c.FinishSharing();
      for (int i = 0; i < n; i++) { c.LoadNext(); SX_ASSERT(same(c.GetPreshare(), masks[i]), "C17: masks are not handed out in the order of the queries"); }
    }
    c.Free();
  }
  sx_cover("end");
}
// many secrets: where a position would wrap. args: secrets
extern "C" void h_many() {
  int n = sx_arg(0);
  env_init();
  auto tag = [](int i) { return (tag_t)i << 3 | (tag_t)(i & 7) << 40; };
  ClientState c, z;
  c.Initialize(2, n, false, false);
  z.Initialize(1, n, true, false);
  PartyState p;
  BackendState b;
  p.Initialize(false);
  b.Initialize(false);
  auto inc = [](int i, int k) { incremental_share_t s; s.x = i * 5 + k; s.y = i * 7 + k + 1; return s; };
  for (int i = 0; i < n; i++) {
    OfflineSecret s;
    s.tag = tag(i);
    s.next_tag = tag(i) + 1;
    s.share = inc(i, 0);
    memset((void*)&s.preshare, 0, sizeof(preshare_t));
    memcpy((void*)&s.preshare, &i, sizeof i);
    preshare_t m;
    memcpy(&m, (void*)&s.preshare, sizeof m);
    c.AddSecret(tag(i), {inc(i, 0), inc(i, 1)}, m);
    z.AddNoiseSecret(tag(i), {inc(i, 0)});
    p.Store(s);
    b.Store(s);
  }
  SX_ASSERT(p.size() == (index_t)n, "C17: number of stored secrets is wrong");
  for (int i = 0; i < n; i++) {
    int m;
    c.LoadNext();
    z.LoadNext();
    SX_ASSERT(c.GetTag() == tag(i) && z.GetTag() == tag(i), "C17: secrets are not handed out in order, once each");
    SX_ASSERT(c.GetIncrementalShares().size() == 2 && c.GetIncrementalShares()[0].x == inc(i, 0).x && c.GetIncrementalShares()[1].y == inc(i, 1).y, "C17: a secret's shares were changed");
    SX_ASSERT(z.GetIncrementalShares().size() == 1 && z.GetIncrementalShares()[0].x == inc(i, 0).x && z.GetIncrementalShares()[0].y == inc(i, 0).y, "C17: a secret's shares were changed");
    p.LoadSecret(tag(i));
    b.LoadSecret(tag(i));
    SX_ASSERT(p.GetNextTag() == tag(i) + 1, "C17: a stored next tag is not the one found under its tag");
    SX_ASSERT(p.GetIncremental().x == inc(i, 0).x && b.GetIncremental().y == inc(i, 0).y, "C17: a stored share is not the one found under its tag");
    preshare_t q = p.GetPreshare(tag(i)), r = b.GetPreshare();
    memcpy(&m, &q, sizeof m);
    SX_ASSERT(m == i && same(q, r), "C17: a stored mask is not the one found under its tag");
  }
  c.FinishSharing();
  for (int i = 0; i < n; i++) {
    int m;
    c.LoadNext();
    preshare_t q = c.GetPreshare();
    memcpy(&m, &q, sizeof m);
    SX_ASSERT(m == i, "C17: masks are not handed out in the order of the queries");
  }
  sx_cover("end");
}
