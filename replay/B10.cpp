#include "replay.h"
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/WaveletTree.hpp"
using namespace sim_ds; using rp::Rng;
template <class T> static void run(Rng& r) { size_t n = r.size(r.coin(1, 10) ? 3000 : 300) + 1; int mx = r.coin() ? (1 << r.below(9)) - r.below(2) : r.below(256); mx = std::min(mx, 255); std::vector<T> a(n); int style = r.below(4); T run = r.below(mx + 1);
  for (auto& x : a) { if (style == 0) x = r.below(mx + 1); else if (style == 1) { if (r.coin(1, 20)) run = r.below(mx + 1); x = run; } else if (style == 2) x = mx; else x = r.coin(1, 9) ? r.below(mx + 1) : mx & r.next(); } if (r.coin()) a[r.below(n)] = mx;
  rp::describe("symbols ", rp::show(a, 300)); WaveletTree t(a); REQ(t.size() == n, "size ", t.size()); std::vector<size_t> cnt(256, 0); int top = *std::max_element(a.begin(), a.end());
  for (size_t i = 0; i < n; i++) { int s = (uint8_t)a[i]; REQ(t[i] == s, "access ", i, " got ", (int)t[i], " expected ", s); REQ(t.rank(i) == cnt[s], "rank(", i, ") got ", t.rank(i), " expected ", cnt[s]); auto p = t.AccessAndRank(i); REQ(p.first == s && p.second == cnt[s], "AccessAndRank ", i);
    int c = r.coin(1, 4) ? r.below(256) : r.coin() ? r.below(top + 1) : (uint8_t)a[r.below(n)]; REQ(t.rank((uint8_t)c, i) == cnt[c], "rank(", c, ",", i, ") got ", t.rank((uint8_t)c, i), " expected ", cnt[c]); REQ(t.rank((uint8_t)s, i) == cnt[s], "rank of own symbol"); cnt[s]++; }
  for (int c = 0; c < 256; c++) REQ(t.rank((uint8_t)c, n) == cnt[c], "rank(", c, ", size)");
  rp::nontrivial += top > 0; }
CASE(bytes) { run<uint8_t>(r); }
CASE(ints) { run<int>(r); }
CASE(words) { run<uint64_t>(r); }
