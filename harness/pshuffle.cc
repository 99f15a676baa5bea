// C08: cross-server shuffle. arg0 = servers, arg1 = max count per server, arg2 = max total, arg3 = symbolic stream
#include <memory>
#include <vector>
#include "DPPIR/shuffle/parallel_shuffle.h"
#include "env.h"
using namespace DPPIR;
using shuffle::ParallelShuffler;
static const int SEED = 4711;

static void check(int S, const index_t* counts, const index_t* noise) {
  index_t total = 0;
  for (int s = 0; s < S; s++) total += counts[s];
  std::vector<std::unique_ptr<ParallelShuffler>> sh;
  for (int s = 0; s < S; s++) {
    sh.push_back(std::make_unique<ParallelShuffler>(s, S, SEED));
    sh[s]->Initialize(counts, noise[s]);
  }
  for (int round = 0; round < 2; round++) {
    // targets as each server computes them, message by message
    std::vector<std::vector<int>> tgt(S);
    for (int a = 0; a < S; a++) {
      for (index_t i = 0; i < counts[a]; i++) {
        int t = sh[a]->ShuffleOne();
        SX_ASSERT(t < S, "C08: message routed to a server that does not exist");
        tgt[a].push_back(t);
        if (total <= 8) sx_note("route", t);
      }
    }
    index_t sum = 0;
    for (int b = 0; b < S; b++) {
      index_t want = total / S;
      if (b == S - 1) want = total - (S - 1) * (total / S);
      SX_ASSERT(sh[b]->GetServerSliceSize() == want, "C08: slices are not balanced");
      sum += sh[b]->GetServerSliceSize();
      index_t prefix = 0;
      for (int a = 0; a < S; a++) {
        index_t sent = 0, nz = 0;
        for (index_t i = 0; i < counts[a]; i++)
          if (tgt[a][i] == b) { sent++; if (i < noise[a]) nz++; }
        SX_ASSERT(sh[a]->CountToServer(b) == sent, "C08: announced number of messages differs from those sent");
        SX_ASSERT(sh[b]->CountFromServer(a) == sent, "C08: receiver expects a different number than the sender sends");
        SX_ASSERT(sh[a]->CountNoiseToServer(b) == nz, "C08: noise count is not the noise part of what is sent");
        SX_ASSERT(sh[b]->PrefixSumCountFromServer(a) == prefix, "C08: offset of a sender's messages is wrong");
        for (index_t i = prefix; i < prefix + sent; i++)
          SX_ASSERT(sh[b]->FindSourceOf(i) == a, "C08: received position traced back to the wrong sender");
        prefix += sent;
      }
      SX_ASSERT(prefix == sh[b]->GetServerSliceSize(), "C08: what a server receives is not its slice");
    }
    SX_ASSERT(sum == total, "C08: slices do not add up to the batch");
    // the way back: positions in sending order, each once (also with the forward map released)
    for (int a = 0; a < S; a++) {
      if (round == 1) sh[a]->FinishForward();
      std::vector<int> seen(counts[a], 0);
      for (int b = 0; b < S; b++)
        for (index_t i = 0; i < counts[a]; i++)
          if (tgt[a][i] == b) {
            index_t p = sh[a]->DeshuffleOne(b);
            SX_ASSERT(p == i, "C08: return route does not follow the sending order");
            SX_ASSERT(p < counts[a] && !seen[p], "C08: original position visited twice");
            seen[p] = 1;
          }
    }
    if (round == 0)
      for (int s = 0; s < S; s++) {
        // initialising again starts over and gives the same routes
        sh[s]->Initialize(counts, noise[s]);
        if (counts[s]) { int t = sh[s]->ShuffleOne(); SX_ASSERT(t == tgt[s][0], "C08: initialising again changes the routes"); sh[s]->Initialize(counts, noise[s]); }
      }
  }
  sx_cover("end");
}
extern "C" void h_routes() {
  int S = sx_arg(0);
  index_t mx = sx_arg(1), mt = sx_arg(2);
  env_init();
  if (sx_arg(3)) env_symbolic_seed(SEED);
  index_t counts[8], noise[8], total = 0;
  for (int s = 0; s < S; s++) {
    index_t lim = mx < mt - total ? mx : mt - total;
    counts[s] = sx_choice("count", 0, lim);
    total += counts[s];
    noise[s] = sx_choice("noise", 0, counts[s]);
  }
  check(S, counts, noise);
}
// larger batches, fixed stream; arg1.. = counts
extern "C" void h_routes_big() {
  int S = sx_arg(0);
  env_init();
  std::vector<index_t> counts(S), noise(S);
  for (int s = 0; s < S; s++) { counts[s] = sx_arg(1) + s * sx_arg(2); noise[s] = counts[s] / 3; }
  check(S, counts.data(), noise.data());
}
