#include "replay.h"
#include "sim_ds/basic.hpp"
#include "sim_ds/Heap.hpp"
using namespace sim_ds; using rp::Rng;
static std::string lg; static void L(const std::string& s) { lg += s + " "; rp::describe(lg.size() > 1500 ? "..." + lg.substr(lg.size() - 1500) : lg); }
template <bool Asc> static void run(Rng& r) { lg = Asc ? "MinHeap " : "MaxHeap "; std::multiset<uint64_t> m; size_t n = r.size(100); int w = r.coin() ? r.range(1, 6) : 64; std::vector<uint64_t> a(n); for (auto& x : a) x = r.width(w); if (r.coin(1, 3)) std::sort(a.begin(), a.end()); else if (r.coin(1, 3)) std::sort(a.rbegin(), a.rend());
  using H = Heap<Asc>; H h; switch (r.below(4)) { case 0: break; case 1: h = H(a); break; case 2: h = H(a.begin(), a.end()); break; case 3: { std::vector<uint32_t> b; for (auto& x : a) { x &= 0xffffffff; b.push_back(x); } h = H(b); break; } } if (h.size() || n == 0) m.insert(a.begin(), a.end()); L("from " + rp::show(a, 60)); if (!h.size() && n) m.clear();
  auto top = [&] { return Asc ? *m.begin() : *m.rbegin(); }; auto check = [&] { REQ(h.size() == m.size(), "size ", h.size(), " expected ", m.size()); if (m.size()) { REQ(h.front() == top(), "front ", h.front(), " expected ", top()); REQ(h.value(h.root()) == top(), "root"); std::multiset<uint64_t> s; for (size_t i = 1; i <= h.size(); i++) s.insert(h.value(i)); REQ(s == m, "stored multiset differs"); for (size_t i = 2; i <= h.size(); i++) { auto p = h.value(h.parent(i)), c = h.value(i); REQ(Asc ? p <= c : p >= c, "heap order broken at ", i); } } };
  check(); int ops = r.below(60); int bias = r.range(1, 3); while (ops--) { if (r.coin(bias, 4) && m.size()) { L("pop"); h.pop(); auto t = top(); m.erase(m.find(t)); } else { uint64_t x = r.width(w); L("push(" + std::to_string(x) + ")"); h.push(x); m.insert(x); } check(); }
  L("drain"); while (m.size()) { REQ(h.front() == top(), "drain front"); h.pop(); m.erase(m.find(top())); check(); } rp::nontrivial += n > 1; }
CASE(min) { run<true>(r); }
CASE(max) { run<false>(r); }
