// C23: the configuration generator, and C15 through files.
#include <string.h>
#include <memory>
#include <string>
#include <vector>
#include <fstream>
#include <iostream>
#include "DPPIR/config/config.h"
#include "env.h"
using namespace DPPIR;
namespace sxio { Stream in; }
int gen_config_main(int argc, char** argv);

static bool same_bits(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
static bool same_str(const std::string& a, const std::string& b) {
  bool s = a.size() == b.size();
  for (size_t i = 0; s && i < a.size(); i++) s &= a[i] == b[i];
  return s;
}
// the result of running the generator: what a user finds in the file
static void judge(int P, int S, uint32_t db, double eps, double delta, const std::vector<std::string>& ips) {
  config::Config c = config::ReadFile("out.conf");
  SX_ASSERT(c.party_count == P && c.server_count == S && (int)c.parties.size() == P, "C23: the number of parties or servers is not the requested one");
  SX_ASSERT(c.db_size == db, "C23: the database size is not the requested one");
  SX_ASSERT(same_bits(c.epsilon, eps) & same_bits(c.delta, delta), "C23: epsilon or delta is not the requested one");
  std::vector<config::ServerConfig*> all;
  for (int p = 0; p < P; p++) {
    SX_ASSERT((int)c.parties[p].servers.size() == S, "C23: a server is missing");
    for (int s = 0; s < S; s++) all.push_back(&c.parties[p].servers[s]);
  }
  int N = P * S;
  bool many = N > 12;  // concrete, all on one address
  std::vector<uint8_t> used(many ? 65536 : 0), seeds(many ? 65536 : 0);
  for (int i = 0; i < N; i++) {
    SX_ASSERT(same_str(all[i]->ip, ips.empty() ? std::string("127.0.0.1") : ips[i]), "C23: a server's address is not the given one");
    SX_ASSERT(all[i]->port > 0 && all[i]->port < 65536 && all[i]->parallel_port > 0 && all[i]->parallel_port < 65536, "C23: a port is out of range");
    SX_ASSERT(all[i]->port != all[i]->parallel_port, "C23: a server uses one port twice");
    if (many) {
      SX_ASSERT(!used[all[i]->port]++ && !used[all[i]->parallel_port]++, "C23: two servers on one address share a port");
      SX_ASSERT(all[i]->local_seed >= 0 && all[i]->local_seed < 65536, "harness: seed out of the table");
      SX_ASSERT(!seeds[all[i]->local_seed]++, "C23: two servers share a private seed");
      continue;
    }
    for (int j = 0; j < i; j++) {
      bool same = same_str(all[i]->ip, all[j]->ip);
      bool clash = all[i]->port == all[j]->port || all[i]->port == all[j]->parallel_port || all[i]->parallel_port == all[j]->port || all[i]->parallel_port == all[j]->parallel_port;
      SX_ASSERT(!(same & clash), "C23: two servers on one address share a port");
      SX_ASSERT(all[i]->local_seed != all[j]->local_seed, "C23: two servers share a private seed");
    }
  }
  // key pairs: whatever is sealed for a party's public key opens with its secret key, and with no other
  for (int p = 0; p < P; p++) {
    auto& a = c.parties[p];
    bool match = true;
    for (size_t k = 0; k < a.onion_pkey.size(); k++) match &= (uint8_t)(a.onion_pkey[k] ^ 0x5a) == a.onion_skey[k];  // as the model's key pairs are
    SX_ASSERT(match, "C23: a party's keys do not belong together");
    for (int o = 0; o < p; o++) SX_ASSERT(memcmp(a.onion_pkey.data(), c.parties[o].onion_pkey.data(), a.onion_pkey.size()) != 0, "C23: two parties have the same key pair");
  }
  sx_note("ports", N ? all[N - 1]->port : 0);
  sx_cover("end");
}
static const char* EPS[] = {"0.1", "1", "0", "2.5", "1e-3", "10"};
static const char* DEL[] = {"0.01", "1e-6", "0", "0.5", "1e-12", "0.000001"};
static std::string num(int v) { return std::to_string(v); }
static std::string digits(int n, uint32_t* value) {  // a number of n digits, the last four arbitrary
  std::string s;
  uint32_t v = 0;
  for (int i = 0; i < n; i++) { uint32_t d = i + 4 < n ? 7 - i % 5 : (uint32_t)sx_sym("digit", 8, n > 1 && i == 0 ? 1 : 0, 9); s.push_back((char)('0' + d)); v = v * 10 + d; }
  *value = v;
  return s;
}
static std::string address(int i, int mode) {  // 1: concrete, mixed equal and different; 2: arbitrary characters
  if (mode == 1) return "10.0." + num(i % 3) + "." + num(i % 2 + 1);
  std::string s;
  for (int k = 0; k < 7 + i % 9; k++) s.push_back((char)sx_sym("ip", 8, 33, 126));
  return s;
}
static int run_main(const std::vector<std::string>& a) {
  std::vector<std::unique_ptr<char[]>> store;
  std::vector<char*> argv;
  for (auto& s : a) {
    store.emplace_back(new char[s.size() + 1]);
    for (size_t i = 0; i < s.size(); i++) store.back()[i] = s[i];
    store.back()[s.size()] = 0;
    argv.push_back(store.back().get());
  }
  argv.push_back(nullptr);
  return gen_config_main(a.size(), argv.data());
}
// args: parties, servers, addresses (0 none, 1, 2), digits of the database size, which epsilon and delta, interactive
extern "C" void h_gen() {
  int P = sx_arg(0), S = sx_arg(1), mode = sx_arg(2), n = sx_arg(3), ed = sx_arg(4), inter = sx_arg(5);
  env_init();
  uint32_t db;
  std::string size = digits(n, &db);
  std::vector<std::string> ips;
  if (mode) for (int i = 0; i < P * S; i++) ips.push_back(address(i, mode));
  double eps = strtod(EPS[ed % 6], nullptr), delta = strtod(DEL[ed / 6 % 6], nullptr);
  int rc;
  if (!inter) {
    std::vector<std::string> a = {"gen_config", "out.conf", size, EPS[ed % 6], DEL[ed / 6 % 6], num(P), num(S)};
    for (auto& i : ips) a.push_back(i);
    rc = run_main(a);
  } else {
    std::string t = size + (inter == 2 ? " " : "\n") + EPS[ed % 6] + " " + DEL[ed / 6 % 6] + (inter == 2 ? " " : "\n") + num(P) + " " + num(S) + "\n";
    for (int i = 0; i < P * S; i++) t += (mode ? ips[i] : "") + "\n";
    *sxio::in.rdbuf() = sxio::Buf();
    for (char c : t) sxio::in.rdbuf()->s.push_back(c);
    rc = run_main({"gen_config", "out.conf"});
  }
  SX_ASSERT(rc == 0, "C23: the generator fails on valid arguments");
  uint32_t len;
  SX_ASSERT(env_file_get("out.conf", &len), "C23: no configuration is written");
  judge(P, S, db, eps, delta, ips);
}
static const char* BAD_SIZE[] = {"-5", "-1", "4294967296", "-4294967286", "x", ""};
static const char* BAD_TEXT[] = {"", "10", "10 0.1", "10 0.1 0.1", "10 0.1 0.1 2", "x 0.1 0.1 2 1", "10 x 0.1 2 1", "10 0.1 x 2 1", "10 0.1 0.1 x 1", "10 0.1 0.1 2 x", "-5 0.1 0.1 2 1", "-1 0.1 0.1 2 1", "4294967296 0.1 0.1 2 1", "10 0.1 0.1 99999999999 1", "10 0.1 0.1 2 -99999999999", "10 0.1 0.1 4294967298 1"};
// sizes and dialogues that are none. args: which, interactive
extern "C" void h_gen_bad() {
  int k = sx_arg(0), inter = sx_arg(1);
  env_init();
  sx_abort_ok(1);
  if (!inter) run_main({"gen_config", "out.conf", BAD_SIZE[k], "0.1", "0.1", "2", "1"});
  else {
    *sxio::in.rdbuf() = sxio::Buf();
    sxio::in.rdbuf()->s = std::string(BAD_TEXT[k]) + "\n\n\n\n";
    run_main({"gen_config", "out.conf"});
  }
  uint32_t len;
  SX_ASSERT(!env_file_get("out.conf", &len), "C23: a configuration is written that is not the requested one");
  sx_cover("refused");
}
// arguments that do not describe a configuration: no file. args: parties, servers, number of addresses, arguments cut to this many (0: all), interactive
extern "C" void h_gen_refuse() {
  int P = sx_arg(0), S = sx_arg(1), n = sx_arg(2), cut = sx_arg(3), inter = sx_arg(4);
  env_init();
  sx_abort_ok(1);
  if (!inter) {
    std::vector<std::string> a = {"gen_config", "out.conf", "10", "0.1", "0.1", num(P), num(S)};
    for (int i = 0; i < n; i++) a.push_back("10.0.0." + num(i));
    if (cut) a.resize(cut);
    run_main(a);
  } else {
    std::string t = "10 0.1 0.1 " + num(P) + " " + num(S) + "\n";
    for (int i = 0; i < n; i++) t += "\n";
    *sxio::in.rdbuf() = sxio::Buf();
    sxio::in.rdbuf()->s = t;
    run_main({"gen_config", "out.conf"});
  }
  uint32_t len;
  SX_ASSERT(!env_file_get("out.conf", &len), "C23: a configuration is written that is not the requested one");
  sx_cover("refused");
}
