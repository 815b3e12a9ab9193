#include "replay.h"
#include "sim_ds/basic.hpp"
#include "sim_ds/BijectiveHash.hpp"
using namespace sim_ds; using rp::Rng;
static uint64_t M(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
template <unsigned K> static void one(unsigned w, uint64_t x) { rp::describe("width ", w, " value ", x, " step ", K); Xorshift s(w); MultiplyHash m(w); if (w == 64) { s = Xorshift(); m = MultiplyHash(); } REQ(s.hash<K>(x) <= M(w), "Xorshift leaves the domain"); REQ(s.ihash<K>(s.hash<K>(x)) == x, "Xorshift inverse"); REQ(s.hash<K>(s.ihash<K>(x)) == x, "Xorshift hash of inverse"); REQ(m.hash<K>(x) <= M(w), "MultiplyHash leaves the domain"); REQ(m.ihash<K>(x) <= M(w), "MultiplyHash inverse leaves the domain"); REQ(m.ihash<K>(m.hash<K>(x)) == x, "MultiplyHash inverse"); REQ(m.hash<K>(m.ihash<K>(x)) == x, "MultiplyHash hash of inverse"); }
CASE(all) { unsigned w = r.range(1, 64); uint64_t x = r.width(w); one<0>(w, x); one<1>(w, x); one<2>(w, x); rp::describe("SplitMixHash width ", w, " value ", x); SplitMixHash h(w); if (w == 64 && r.coin()) h = SplitMixHash(); REQ(h.hash(x) <= M(w), "leaves the domain"); REQ(h.ihash(h.hash(x)) == x, "inverse: ", h.ihash(h.hash(x))); REQ(h.hash(h.ihash(x)) == x, "hash of inverse"); rp::nontrivial += x != 0; }
CASE(sweep) { static unsigned k = 0; unsigned w = 1 + k % 64; k++; for (int i = 0; i < 40; i++) { uint64_t x = r.width(w); one<0>(w, x); one<1>(w, x); one<2>(w, x); } rp::nontrivial++; }
