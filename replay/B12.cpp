#include "replay.h"
#include "sim_ds/basic.hpp"
#include "sim_ds/sort.hpp"
using namespace sim_ds; using rp::Rng;
template <class T, class C> static void run(Rng& r, C cmp, bool dflt) { size_t n = r.size(200); int w = r.coin() ? r.range(1, 7) : 63; std::vector<T> a(n + 8); for (auto& x : a) x = (T)r.width(w); if (r.coin(1, 4)) std::sort(a.begin(), a.end()); if (r.coin(1, 4)) std::reverse(a.begin(), a.end()); size_t b = r.below(5), e = b + n > a.size() ? a.size() : b + n; auto o = a; rp::describe("range [", b, ",", e, ") of ", rp::show(a, 220));
  if (dflt) HeapSort(a.begin() + b, a.begin() + e); else HeapSort(a.begin() + b, a.begin() + e, cmp); auto s = o; std::stable_sort(s.begin() + b, s.begin() + e, cmp);
  for (size_t i = 0; i < a.size(); i++) if (i < b || i >= e) REQ(a[i] == o[i], "element outside the range changed at ", i); for (size_t i = b; i + 1 < e; i++) REQ(!cmp(a[i + 1], a[i]), "out of order at ", i); auto x = a, y = o; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); REQ(x == y, "not a permutation"); rp::nontrivial += n > 1; }
CASE(def) { run<uint64_t>(r, std::less<>(), true); }
CASE(signedv) { run<int64_t>(r, std::less<>(), true); }
CASE(greater) { run<uint64_t>(r, std::greater<>(), false); }
CASE(coarse) { run<uint64_t>(r, [](uint64_t x, uint64_t y) { return x / 4 < y / 4; }, false); }
CASE(ints) { run<int>(r, std::less<>(), false); }
CASE(pointers) { size_t n = r.size(100); std::vector<int> a(n); for (auto& x : a) x = r.below(20) - 10; auto o = a; rp::describe(rp::show(a, 120)); HeapSort(a.data(), a.data() + n); std::sort(o.begin(), o.end()); REQ(a == o, "pointer range"); }
