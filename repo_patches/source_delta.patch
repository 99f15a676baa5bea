From d1bcb7d6c0c5c3be0b39d7d46d603a7637b2bb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:50 +0000
Subject: [PATCH 01/12] fix: noise ranges of trailing servers leave the
 database

With e.g. 5 rows and 4 servers, ranges are rounded up to 2 rows, so the last
server got the range [6, 5).
---
 DPPIR/noise/noise.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/DPPIR/noise/noise.cc b/DPPIR/noise/noise.cc
index 08bf1d3..77941d0 100644
--- a/DPPIR/noise/noise.cc
+++ b/DPPIR/noise/noise.cc
@@ -1,5 +1,6 @@
 #include "DPPIR/noise/noise.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <cstdlib>
@@ -34,8 +35,10 @@ std::pair<key_t, key_t> FindRange(server_id_t server_id,
                                   server_id_t servers_count, index_t db_size) {
   assert(db_size >= servers_count);
   index_t range_size = std::ceil(1.0 * db_size / servers_count);
-  key_t range_start = server_id * range_size;
-  key_t range_end = range_start + range_size;
+  // When db_size is not a multiple of servers_count, the rounded up ranges of the
+  // earlier servers may already cover all the rows.
+  key_t range_start = std::min<key_t>(server_id * range_size, db_size);
+  key_t range_end = std::min<key_t>(range_start + range_size, db_size);
   if (server_id == servers_count - 1) {
     range_end = db_size;
   }
-- 
2.43.0


From 7d2079320e5d7270f844dcff4b6f2b08bdb3f1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:50 +0000
Subject: [PATCH 02/12] fix: bounded random indices never reach the upper half
 of the range

rand() returns 31 random bits, scaling them by 2^-32 only draws indices below
ceil(range / 2), so most permutations were never produced by the shuffle.
---
 DPPIR/shuffle/util.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DPPIR/shuffle/util.cc b/DPPIR/shuffle/util.cc
index ebb97a8..c1decc9 100644
--- a/DPPIR/shuffle/util.cc
+++ b/DPPIR/shuffle/util.cc
@@ -8,10 +8,11 @@ void seed(int s) { srand(s); }
 
 // https://lemire.me/blog/2016/06/30/fast-random-shuffling/
 uint32_t random_bounded(uint32_t range) {
+  static_assert(RAND_MAX == 2147483647, "rand() must return 31 random bits");
   // NOLINTNEXTLINE
-  uint64_t random32bit = static_cast<uint32_t>(rand());  // 32-bit random number
-  uint64_t multiresult = random32bit * range;
-  return multiresult >> 32;
+  uint64_t random31bit = static_cast<uint32_t>(rand());  // 31-bit random number
+  uint64_t multiresult = random31bit * range;
+  return multiresult >> 31;
 }
 
 }  // namespace util
-- 
2.43.0


From 503c9ef9f2251c280113f14ff874c842eab69c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:50 +0000
Subject: [PATCH 03/12] fix: truncated configurations are read past their end

Bin2Int and Bin2Double did not check how many bytes are left, and the remaining
length wrapped around.
---
 DPPIR/config/config.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DPPIR/config/config.cc b/DPPIR/config/config.cc
index db0ebae..72199f4 100644
--- a/DPPIR/config/config.cc
+++ b/DPPIR/config/config.cc
@@ -17,12 +17,14 @@ inline std::string Double2Bin(double v) {
 }
 // Read.
 inline int Bin2Int(const char** data, size_t* n) {
+  assert(*n >= sizeof(int));
   int v = *reinterpret_cast<const int*>(*data);
   *data += sizeof(int);
   *n -= sizeof(int);
   return v;
 }
 inline double Bin2Double(const char** data, size_t* n) {
+  assert(*n >= sizeof(double));
   double v = *reinterpret_cast<const double*>(*data);
   *data += sizeof(double);
   *n -= sizeof(double);
-- 
2.43.0


From 804e93e85b522cca4117652b4f83ada3d08504ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:21 +0000
Subject: [PATCH 04/12] fix: out of range counts in a configuration are
 silently truncated

A file announcing e.g. 257 parties was accepted as describing 1 party.
---
 DPPIR/config/config.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/DPPIR/config/config.cc b/DPPIR/config/config.cc
index 72199f4..1113b8f 100644
--- a/DPPIR/config/config.cc
+++ b/DPPIR/config/config.cc
@@ -94,8 +94,12 @@ Config Deserialize(const char* str, size_t n) {
   config.epsilon = Bin2Double(&str, &n);
   config.delta = Bin2Double(&str, &n);
   // Parties config.
-  config.party_count = Bin2Int(&str, &n);
-  config.server_count = Bin2Int(&str, &n);
+  int party_count = Bin2Int(&str, &n);
+  int server_count = Bin2Int(&str, &n);
+  config.party_count = party_count;
+  config.server_count = server_count;
+  assert(config.party_count == party_count);
+  assert(config.server_count == server_count);
   for (party_id_t i = 0; i < config.party_count; i++) {
     PartyConfig party;
     party.shared_seed = Bin2Int(&str, &n);
-- 
2.43.0


From ad7807eace2bb1d06bf09c50b6faa17f2dfc8e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:21 +0000
Subject: [PATCH 05/12] fix: noise that does not fit in sample_t is not
 rejected

The check converted the maximum to the (32 bit) type first and so always
passed, e.g. for epsilon = 1e-9.
---
 DPPIR/noise/noise.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DPPIR/noise/noise.cc b/DPPIR/noise/noise.cc
index 77941d0..10344e7 100644
--- a/DPPIR/noise/noise.cc
+++ b/DPPIR/noise/noise.cc
@@ -5,6 +5,7 @@
 #include <cmath>
 #include <cstdlib>
 #include <iostream>
+#include <limits>
 #include <random>
 
 namespace DPPIR {
@@ -59,8 +60,8 @@ NoiseDistribution::NoiseDistribution(double epsilon, double delta) {
     std::cout << "Noise cutoff: " << this->cutoff_ << std::endl;
   }
   // Noise domain must fit inside sample_t.
-  index_t max = std::floor(2 * this->cutoff_);
-  if (max != static_cast<sample_t>(max)) {
+  double max = std::floor(2 * this->cutoff_);
+  if (!(max >= 0 && max <= std::numeric_limits<sample_t>::max())) {
     std::cout << "sample_t too small to fit noise, max = " << max << std::endl;
     assert(false);
   }
-- 
2.43.0


From 248c354ade0349a16f4c8a6052f53caeca752a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:21 +0000
Subject: [PATCH 06/12] fix: readers spin forever when the other end closes the
 connection

read() returning 0 was treated as progress.
---
 DPPIR/sockets/common.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DPPIR/sockets/common.cc b/DPPIR/sockets/common.cc
index badc8b8..5d267fc 100644
--- a/DPPIR/sockets/common.cc
+++ b/DPPIR/sockets/common.cc
@@ -120,6 +120,7 @@ void Read(int fd, char* buf, size_t buf_size) {
   while (bytes < buf_size) {
     auto status = read(fd, buf + bytes, buf_size - bytes);
     MY_ASSERT(status);
+    assert(status > 0);  // 0 means that the other end closed the connection.
     bytes += status;
   }
 }
@@ -127,6 +128,8 @@ void Read(int fd, char* buf, size_t buf_size) {
 size_t ReadSome(int fd, char* buf, size_t buf_size) {
   auto status = read(fd, buf, buf_size);
   MY_ASSERT(status);
+  // 0 means that the other end closed the connection.
+  assert(status > 0 || buf_size == 0);
   return status;
 }
 
-- 
2.43.0


From bbf5ac5de9e94206398a3044d8ee1e3667010604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:21 +0000
Subject: [PATCH 07/12] fix: tags clash when clients of parallel servers make
 different numbers of queries

With 2 servers, a client with 1 query and one with 3, both used the tag 3 * 1 + 0
or the like, and noise tags were derived from the assumption that every row
gets equally much noise. Such runs stopped in PartyState::Store (or divided by 0
when a server owns no rows). Tags now contain their origin.
---
 DPPIR/protocol/client/client_handlers.cc             |  3 ++-
 .../parallel_party/parallel_party_handlers.cc        | 12 +++---------
 DPPIR/protocol/party/party_handlers.cc               |  3 ++-
 3 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/DPPIR/protocol/client/client_handlers.cc b/DPPIR/protocol/client/client_handlers.cc
index 7e8d03d..a7442da 100644
--- a/DPPIR/protocol/client/client_handlers.cc
+++ b/DPPIR/protocol/client/client_handlers.cc
@@ -14,7 +14,8 @@ tag_t Client::SampleTag(index_t id) {
   // The below leaks information but is helpful for debugging as it allows us
   // to determine the source of a message via its tag.
   // TODO(babman): sample this tag uniformly at random.
-  return this->server_id_ * this->queries_count_ + id;
+  // Clients of different servers may make a different number of queries.
+  return (static_cast<tag_t>(this->server_id_) << 32) | id;
 }
 
 // Samples an offline secret, stores it in state, and returns it for
diff --git a/DPPIR/protocol/parallel_party/parallel_party_handlers.cc b/DPPIR/protocol/parallel_party/parallel_party_handlers.cc
index dc40fe6..59da855 100644
--- a/DPPIR/protocol/parallel_party/parallel_party_handlers.cc
+++ b/DPPIR/protocol/parallel_party/parallel_party_handlers.cc
@@ -7,20 +7,14 @@
 namespace DPPIR {
 namespace protocol {
 
-static int64_t NOISE_OFFSET = -1;
-
 // Randomly sample a tag. Must be from a large enough domain to avoid colisions.
 tag_t ParallelParty::SampleTag(index_t id) {
   // The below leaks information but is helpful for debugging as it allows us
   // to determine the source of a message via its tag.
-  if (NOISE_OFFSET == -1) {
-    index_t range = this->noise_end_ - this->noise_start_;
-    index_t noise_per_row = this->noise_count_ / range;
-    index_t total_noise = noise_per_row * this->db_.Size();
-    NOISE_OFFSET = total_noise - (this->noise_start_ * noise_per_row);
-  }
   // TODO(babman): sample the tag uniformly at random.
-  return this->total_batch_size_ - NOISE_OFFSET + id;
+  // Must not clash with the tags of clients, siblings, or other parties' noise.
+  return (static_cast<tag_t>(this->party_id_ + 1) << 48) |
+         (static_cast<tag_t>(this->server_id_) << 32) | id;
 }
 
 // Samples an offline secret, stores it in state, and returns it for
diff --git a/DPPIR/protocol/party/party_handlers.cc b/DPPIR/protocol/party/party_handlers.cc
index 957e981..fe51d33 100644
--- a/DPPIR/protocol/party/party_handlers.cc
+++ b/DPPIR/protocol/party/party_handlers.cc
@@ -10,7 +10,8 @@ namespace protocol {
 // Randomly sample a tag. Must be from a large enough domain to avoid colisions.
 tag_t Party::SampleTag(index_t id) {
   // TODO(babman): sample this tag properly.
-  return this->input_count_ + id;
+  // Must not clash with the tags of clients or the noise of other parties.
+  return (static_cast<tag_t>(this->party_id_ + 1) << 48) | id;
 }
 
 // Samples an offline secret, stores it in state, and returns it for
-- 
2.43.0


From 5fbc5fcccb31d214976a18d236edfb5428b33d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:41 +0000
Subject: [PATCH 08/12] fix: gen_config silently truncates party and server
 counts above 255

---
 DPPIR/config/gen_config.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/DPPIR/config/gen_config.cc b/DPPIR/config/gen_config.cc
index b2d648c..f494cbe 100644
--- a/DPPIR/config/gen_config.cc
+++ b/DPPIR/config/gen_config.cc
@@ -31,6 +31,8 @@ Config Interactive() {
 
   config.party_count = party_count;
   config.server_count = server_count;
+  assert(config.party_count == party_count);
+  assert(config.server_count == server_count);
   config.parties = std::vector<PartyConfig>(party_count);
   for (party_id_t i = 0; i < config.party_count; i++) {
     // One party at a time.
@@ -67,8 +69,12 @@ Config FromArgs(int argc, char** argv) {
   config.epsilon = std::stod(argv[2]);
   config.delta = std::stod(argv[3]);
   // Parties and servers.
-  config.party_count = std::stoi(argv[4]);
-  config.server_count = std::stoi(argv[5]);
+  int party_count = std::stoi(argv[4]);
+  int server_count = std::stoi(argv[5]);
+  config.party_count = party_count;
+  config.server_count = server_count;
+  assert(config.party_count == party_count);
+  assert(config.server_count == server_count);
   config.parties = std::vector<PartyConfig>(config.party_count);
   // Party/server details.
   int args = 6 + (config.party_count * config.server_count);
-- 
2.43.0


From 50c33df3869c257624031ef386eb6a9a0d0b0c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:10 +0000
Subject: [PATCH 09/12] fix: gen_config gives clashing ports when there are
 more than 1000 servers

---
 DPPIR/config/gen_config.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/DPPIR/config/gen_config.cc b/DPPIR/config/gen_config.cc
index f494cbe..7eaa704 100644
--- a/DPPIR/config/gen_config.cc
+++ b/DPPIR/config/gen_config.cc
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cassert>
 #include <iostream>
 #include <string>
@@ -8,6 +9,15 @@
 namespace DPPIR {
 namespace config {
 
+// Ports start at 3000 and parallel ports at 4000, or right after the last port
+// if there are more than 1000 servers.
+int ParallelPortBase(const Config& config) {
+  int servers = config.party_count * config.server_count;
+  int base = 3000 + std::max(1000, servers);
+  assert(base + servers <= 65536);
+  return base;
+}
+
 Config Interactive() {
   Config config;
 
@@ -45,7 +55,8 @@ Config Interactive() {
       ServerConfig& server = party.servers.at(j);
       server.local_seed = i * config.server_count + j;
       server.port = 3000 + (i * config.server_count + j);
-      server.parallel_port = 4000 + (i * config.server_count + j);
+      server.parallel_port =
+          ParallelPortBase(config) + (i * config.server_count + j);
       // IP.
       std::cout << "Enter ip (empty for 127.0.0.1): ";
       std::getline(std::cin, server.ip);
@@ -90,7 +101,8 @@ Config FromArgs(int argc, char** argv) {
       server.local_seed = i * config.server_count + j;
       // Port.
       server.port = 3000 + (i * config.server_count + j);
-      server.parallel_port = 4000 + (i * config.server_count + j);
+      server.parallel_port =
+          ParallelPortBase(config) + (i * config.server_count + j);
       // IP.
       if (argc == 6) {
         server.ip = "127.0.0.1";
-- 
2.43.0


From 632d541d5774a91229e18e147f2ff191474ba64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:27 +0000
Subject: [PATCH 10/12] fix: number of queries is silently truncated to 32 bits

---
 DPPIR/main.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DPPIR/main.cc b/DPPIR/main.cc
index b62748d..4aa6114 100644
--- a/DPPIR/main.cc
+++ b/DPPIR/main.cc
@@ -1,4 +1,5 @@
 #include <cassert>
+#include <cstdint>
 #include <iostream>
 #include <string>
 
@@ -66,6 +67,10 @@ int main(int argc, char** argv) {
     std::cout << "--queries is required for clients" << std::endl;
     return 1;
   }
+  if (role == "client" && queries > UINT32_MAX) {
+    std::cout << "--queries out of range!" << std::endl;
+    return 1;
+  }
   if (server_id < 0) {
     std::cout << "--server_id is required" << std::endl;
     return 1;
-- 
2.43.0


From 2923ba2706a74ebb3babc54d6323a90a3a7f5d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 11/12] fix: gen_config accepts negative database sizes

---
 DPPIR/config/gen_config.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/DPPIR/config/gen_config.cc b/DPPIR/config/gen_config.cc
index 7eaa704..2e3ca9b 100644
--- a/DPPIR/config/gen_config.cc
+++ b/DPPIR/config/gen_config.cc
@@ -23,7 +23,8 @@ Config Interactive() {
 
   // Database config.
   std::cout << "Enter database size: ";
-  std::cin >> config.db_size;
+  int64_t db_size;
+  std::cin >> db_size;
 
   // DP parameters.
   std::cout << "Enter epsilon and delta: ";
@@ -39,6 +40,8 @@ Config Interactive() {
   std::string dummy;
   std::getline(std::cin, dummy);
 
+  config.db_size = db_size;
+  assert(config.db_size == db_size);
   config.party_count = party_count;
   config.server_count = server_count;
   assert(config.party_count == party_count);
@@ -75,7 +78,9 @@ Config FromArgs(int argc, char** argv) {
   assert(argc >= 6);
   Config config;
   // Database config.
-  config.db_size = std::stoi(argv[1]);
+  int64_t db_size = std::stoi(argv[1]);
+  config.db_size = db_size;
+  assert(config.db_size == db_size);
   // DP parameters.
   config.epsilon = std::stod(argv[2]);
   config.delta = std::stod(argv[3]);
-- 
2.43.0


From 2645de6ec6c365f9b99d82040f3cbb4e722d1a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 12/12] fix: gen_config uses uninitialized counts when its
 interactive input is not numbers

---
 DPPIR/config/gen_config.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DPPIR/config/gen_config.cc b/DPPIR/config/gen_config.cc
index 2e3ca9b..0c401f2 100644
--- a/DPPIR/config/gen_config.cc
+++ b/DPPIR/config/gen_config.cc
@@ -36,6 +36,7 @@ Config Interactive() {
   int party_count, server_count;
   std::cin >> party_count;
   std::cin >> server_count;
+  assert(std::cin);
 
   std::string dummy;
   std::getline(std::cin, dummy);
-- 
2.43.0

