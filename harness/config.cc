// C15, C16: configurations.
#include <string.h>
#include <memory>
#include <string>
#include "DPPIR/config/config.h"
#include "env.h"
using namespace DPPIR;
using namespace DPPIR::config;

static int symint(const char* n) { return (int)(uint32_t)sx_sym(n, 32, 0, 0xffffffffu); }
static double symdbl(const char* n) { uint64_t b = sx_sym(n, 64, 0, ~0ull); double d; memcpy(&d, &b, 8); return d; }
static bool same_bits(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }

// arg0 parties, arg1 servers, arg2 length of the addresses (+ position)
static Config make(int np, int ns, int len, bool keys) {
  Config c;
  c.db_size = symint("db");
  c.epsilon = symdbl("eps");
  c.delta = symdbl("delta");
  c.party_count = np;
  c.server_count = ns;
  for (int i = 0; i < np; i++) {
    PartyConfig p;
    p.shared_seed = symint("seed");
    for (size_t k = 0; k < p.onion_pkey.size(); k++) p.onion_pkey[k] = keys ? (unsigned char)sx_sym("pk", 8, 0, 255) : (unsigned char)(i * 64 + k);
    for (size_t k = 0; k < p.onion_skey.size(); k++) p.onion_skey[k] = keys ? (unsigned char)sx_sym("sk", 8, 0, 255) : (unsigned char)(i * 64 + k + 32);
    for (int j = 0; j < ns; j++) {
      ServerConfig s;
      s.local_seed = symint("local");
      s.port = symint("port");
      s.parallel_port = symint("pport");
      int n = len == 99 ? (int)sx_choice("len", 0, 40) : len > 99 ? len : len ? (len + i * ns + j) % 17 : 0;
      for (int k = 0; k < n; k++) s.ip.push_back((char)sx_sym("ip", 8, 1, 255));
      p.servers.push_back(s);
    }
    c.parties.push_back(p);
  }
  return c;
}
static void equal(const Config& a, const Config& b) {
  SX_ASSERT(a.db_size == b.db_size, "C15: database size changed");
  SX_ASSERT(same_bits(a.epsilon, b.epsilon) & same_bits(a.delta, b.delta), "C15: epsilon or delta changed");
  SX_ASSERT(a.party_count == b.party_count && a.server_count == b.server_count && a.parties.size() == b.parties.size(), "C15: number of parties or servers changed");
  for (size_t i = 0; i < a.parties.size(); i++) {
    const PartyConfig &p = a.parties[i], &q = b.parties[i];
    SX_ASSERT(p.shared_seed == q.shared_seed, "C15: shared seed changed");
    bool k = true;
    for (size_t x = 0; x < p.onion_pkey.size(); x++) k &= p.onion_pkey[x] == q.onion_pkey[x];
    for (size_t x = 0; x < p.onion_skey.size(); x++) k &= p.onion_skey[x] == q.onion_skey[x];
    SX_ASSERT(k, "C15: key changed");
    SX_ASSERT(p.servers.size() == q.servers.size(), "C15: number of servers changed");
    for (size_t j = 0; j < p.servers.size(); j++) {
      SX_ASSERT((p.servers[j].local_seed == q.servers[j].local_seed) & (p.servers[j].port == q.servers[j].port) & (p.servers[j].parallel_port == q.servers[j].parallel_port), "C15: seed or port changed");
      const std::string &u = p.servers[j].ip, &v = q.servers[j].ip;
      bool s = u.size() == v.size();
      for (size_t x = 0; s && x < u.size(); x++) s &= u[x] == v[x];
      SX_ASSERT(s, "C15: address changed");
    }
  }
}
static std::unique_ptr<char[]> exact(const std::string& s) {
  std::unique_ptr<char[]> c(new char[s.size()]);
  for (size_t i = 0; i < s.size(); i++) c[i] = s[i];
  return c;
}
extern "C" void h_roundtrip() {
  env_init();
  Config c = make(sx_arg(0), sx_arg(1), sx_arg(2), sx_arg(3));
  std::string s = Serialize(c);
  auto bytes = exact(s);
  Config d = Deserialize(bytes.get(), s.size());
  equal(c, d);
  std::string t = Serialize(d);
  bool same = s.size() == t.size();
  for (size_t i = 0; same && i < s.size(); i++) same &= s[i] == t[i];
  SX_ASSERT(same, "C15: writing a configuration again gives other bytes");
  sx_note("size", s.size());
  sx_cover("end");
}
// the byte format itself: little endian integers and doubles, keys, zero-terminated addresses
static void put32(std::string* o, uint32_t v) { for (int i = 0; i < 4; i++) o->push_back((char)(v >> (8 * i))); }
static void put64(std::string* o, double d) { uint64_t v; memcpy(&v, &d, 8); for (int i = 0; i < 8; i++) o->push_back((char)(v >> (8 * i))); }
extern "C" void h_format() {
  env_init();
  Config c = make(sx_arg(0), sx_arg(1), sx_arg(2), false);
  std::string o;
  put32(&o, c.db_size);
  put64(&o, c.epsilon);
  put64(&o, c.delta);
  put32(&o, c.party_count);
  put32(&o, c.server_count);
  for (auto& p : c.parties) {
    put32(&o, p.shared_seed);
    for (auto k : p.onion_pkey) o.push_back((char)k);
    for (auto k : p.onion_skey) o.push_back((char)k);
    for (auto& s : p.servers) {
      put32(&o, s.local_seed);
      put32(&o, s.port);
      put32(&o, s.parallel_port);
      o += s.ip;
      o.push_back(0);
    }
  }
  auto bytes = exact(o);
  Config d = Deserialize(bytes.get(), o.size());
  equal(c, d);
  std::string s = Serialize(c);
  bool same = s.size() == o.size();
  for (size_t i = 0; same && i < s.size(); i++) same &= s[i] == o[i];
  SX_ASSERT(same, "C15: the byte format changed");
  sx_cover("end");
}
#ifdef WITH_FILES
#include <fstream>
#include <iostream>
namespace sxio { Stream in; }
extern "C" void h_file() {
  env_init();
  Config c = make(sx_arg(0), sx_arg(1), sx_arg(2), false);
  WriteToFile(c, "some.config");
  Config d = ReadFile("some.config");
  equal(c, d);
  // an existing file is replaced, not extended
  WriteToFile(c, "some.config");
  d = ReadFile("some.config");
  equal(c, d);
  sx_cover("end");
}
#endif
// C16: any bytes. arg0 = length, arg1 = 1: the counts are at most that many (keeps paths few)
extern "C" void h_bytes() {
  size_t n = sx_arg(0);
  env_init();
  std::unique_ptr<char[]> b(new char[n]), copy(new char[n]);
  for (size_t i = 0; i < n; i++) copy[i] = b[i] = (char)sx_sym("byte", 8, 0, 255);
  sx_abort_ok(1);
  Config c = Deserialize(b.get(), n);
  sx_abort_ok(0);
  std::string s = Serialize(c);
  bool same = s.size() == n;
  for (size_t i = 0; same && i < n; i++) same &= s[i] == copy[i];
  SX_ASSERT(same, "C16: a configuration was accepted that does not account for exactly the given bytes");
  sx_note("parties", c.party_count);
  sx_note("servers", c.server_count);
  sx_cover("accepted");
}
// C16: a valid image, damaged: arg0.. shape; cut anywhere, or extended, or one byte replaced
extern "C" void h_damage() {
  env_init();
  Config c = make(sx_arg(0), sx_arg(1), sx_arg(2), false);
  std::string s = Serialize(c);
  std::string o;
  int how = sx_arg(3);
  if (how == 0) {
    size_t n = sx_choice("cut", 0, s.size() - 1);
    o = s.substr(0, n);
  } else if (how == 1) {
    o = s;
    size_t k = sx_choice("extra", 1, 3);
    for (size_t i = 0; i < k; i++) o.push_back((char)sx_sym("byte", 8, 0, 255));
  } else {
    o = s;
    size_t at = sx_choice("at", 0, s.size() - 1);
    o[at] = (char)sx_sym("byte", 8, 0, 255);
  }
  auto b = exact(o);
  sx_abort_ok(1);
  Config d = Deserialize(b.get(), o.size());
  sx_abort_ok(0);
  SX_ASSERT(how == 2, "C16: a truncated or extended configuration was accepted");
  std::string t = Serialize(d);
  bool same = t.size() == o.size();
  for (size_t i = 0; same && i < t.size(); i++) same &= t[i] == o[i];
  SX_ASSERT(same, "C16: a configuration was accepted that does not account for exactly the given bytes");
  sx_cover("accepted");
}
