// C12: onions. arg0 = party count, arg1 = first party
#include <string.h>
#include <memory>
#include <vector>
#include "DPPIR/onion/onion.h"
#include "env.h"
using namespace DPPIR;

struct Keys { std::vector<pkey_t> pk; std::vector<skey_t> sk; };
static Keys keys(int n) {
  Keys k;
  k.pk.resize(n);
  k.sk.resize(n);
  for (int i = 0; i < n; i++) onion::GenerateKeyPair(&k.pk[i], &k.sk[i]);
  return k;
}
static std::unique_ptr<OfflineSecret[]> secrets(int n, bool sym) {
  auto s = std::make_unique<OfflineSecret[]>(n);
  for (int i = 0; i < n; i++) {
    uint8_t* p = (uint8_t*)&s[i];
    for (size_t b = 0; b + 4 <= sizeof(OfflineSecret); b += 4) {
      uint32_t v = sym ? (uint32_t)sx_sym("secret", 32, 0, 0xffffffffu) : (uint32_t)(i * 1000 + b);
      memcpy(p + b, &v, 4);
    }
  }
  return s;
}
// an exact-size copy, so that any access outside is noticed
static std::unique_ptr<char[]> exact(const char* p, size_t n) {
  std::unique_ptr<char[]> c(new char[n]);
  memcpy(c.get(), p, n);
  return c;
}
extern "C" void h_peel() {
  int n = sx_arg(0), first = sx_arg(1), m = n - first;
  env_init();
  Keys k = keys(n);
  auto s = secrets(m, !sx_arg(2));
  auto copy = std::make_unique<OfflineSecret[]>(m);
  memcpy((void*)copy.get(), s.get(), m * sizeof(OfflineSecret));
  auto cipher = onion::OnionEncrypt(s.get(), first, n, k.pk);
  SX_ASSERT(memcmp(copy.get(), s.get(), m * sizeof(OfflineSecret)) == 0, "C12: sealing changed the secrets");
  size_t sz = onion::CipherSize(m);
  SX_ASSERT(sz == m * (sizeof(OfflineSecret) + crypto_box_SEALBYTES), "C12: announced onion size");
  std::unique_ptr<char[]> cur = exact(cipher.get(), sz);
  for (int i = 0; i < m; i++) {
    int p = first + i;
    size_t left = onion::CipherSize(m - i);
    SX_ASSERT(memcmp(cur.get(), k.pk[p].data(), 32) == 0, "C12: layer is not sealed to the party that has to open it");
    auto layer = onion::OnionDecrypt(cur.get(), m - i, k.pk[p], k.sk[p]);
    bool same = true;
    for (size_t b = 0; b < sizeof(OfflineSecret); b++) same &= ((uint8_t*)&layer.Msg())[b] == ((uint8_t*)&copy[i])[b];
    SX_ASSERT(same, "C12: party does not get its own secret");
    sx_note("tag", layer.Msg().tag);
    size_t next = m - i - 1 ? onion::CipherSize(m - i - 1) : 0;
    SX_ASSERT(next + sizeof(OfflineSecret) + crypto_box_SEALBYTES == left, "C12: layer sizes do not fit together");
    cur = exact(layer.NextLayer(), next);
  }
  sx_cover("end");
}
// somebody who is not next in line, or with the wrong half of a key pair: arg2 = who
extern "C" void h_wrong_key() {
  int n = sx_arg(0), first = sx_arg(1), who = sx_arg(2), m = n - first;
  env_init();
  Keys k = keys(n + 1);
  auto s = secrets(m, false);
  std::vector<pkey_t> pks(k.pk.begin(), k.pk.begin() + n);
  auto cipher = onion::OnionEncrypt(s.get(), first, n, pks);
  auto cur = exact(cipher.get(), onion::CipherSize(m));
  sx_abort_ok(1);
  auto layer = onion::OnionDecrypt(cur.get(), m, k.pk[who], k.sk[sx_arg(3)]);
  sx_abort_ok(0);
  sx_fail("C12: an onion was opened by a party it is not meant for");
}
// any single-byte change at any position, at any layer: arg2 = layer
extern "C" void h_tamper() {
  int n = sx_arg(0), first = sx_arg(1), at = sx_arg(2), m = n - first;
  env_init();
  Keys k = keys(n);
  auto s = secrets(m, false);
  auto cipher = onion::OnionEncrypt(s.get(), first, n, k.pk);
  std::unique_ptr<char[]> cur = exact(cipher.get(), onion::CipherSize(m));
  for (int i = 0; i < at; i++) {
    auto l = onion::OnionDecrypt(cur.get(), m - i, k.pk[first + i], k.sk[first + i]);
    cur = exact(l.NextLayer(), onion::CipherSize(m - i - 1));
  }
  size_t sz = onion::CipherSize(m - at);
  uint32_t pos = sx_choice("pos", 0, sz - 1);
  cur[pos] ^= (char)sx_sym("delta", 8, 1, 255);
  sx_note("pos", pos);
  sx_abort_ok(1);
  auto l = onion::OnionDecrypt(cur.get(), m - at, k.pk[first + at], k.sk[first + at]);
  sx_abort_ok(0);
  sx_fail("C12: a modified onion was accepted");
}
