#include "replay.h"
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/DacVector.hpp"
using namespace sim_ds; using rp::Rng;
template <class T> static std::vector<T> values(Rng& r) { size_t n = r.size(r.coin(1, 8) ? 2500 : 300); const int B = 8 * sizeof(T); int style = r.below(6), w = r.range(1, B); std::vector<T> a(n);
  for (auto& x : a) switch (style) { case 0: x = (T)r.width(w); break; case 1: x = (T)(r.next() >> r.below(64)); break; case 2: x = (T)1 << r.below(B); break; case 3: x = r.coin(1, 30) ? (T)r.width(w) : (T)r.below(4); break; case 4: x = (T)~(T)0 >> r.below(B); break; default: x = (T)r.width(r.range(1, w)); }
  if (n && r.coin(1, 4)) a[r.below(n)] = (T)~(T)0; return a; }
static size_t bits(uint64_t x) { size_t b = 1; while (b < 64 && x >> b) b++; return b; }
template <class T> static void check(const DacVector& v, const std::vector<T>& a, const std::vector<size_t>& units) { REQ(v.size() == a.size(), "size ", v.size()); REQ(v.empty() == a.empty(), "empty");
  for (size_t i = 0; i < a.size(); i++) { REQ(v[i] == (uint64_t)a[i], "element ", i, " got ", v[i], " expected ", (uint64_t)a[i]); REQ(v.at(i) == (uint64_t)a[i], "at ", i); if (units.size()) { size_t d = 0, b = units[0], need = bits(a[i]); while (b < need) b += units[++d]; REQ(v.depth(i) == d, "depth(", i, ") got ", v.depth(i), " expected ", d); } else REQ(v.depth(i) < v.num_layers(), "depth in range"); }
  size_t i = 0; for (auto x : v) { REQ(x == (uint64_t)a[i], "iteration at ", i); i++; } REQ(i == a.size(), "iteration length ", i); REQ((size_t)(v.end() - v.begin()) == a.size(), "iterator distance");
  if (a.size()) { REQ(v.front() == (uint64_t)a.front(), "front"); REQ(v.back() == (uint64_t)a.back(), "back"); } bool th = false; try { v.at(a.size()); } catch (std::out_of_range&) { th = true; } REQ(th, "at(size)"); }
template <class T> static void run(Rng& r) { auto a = values<T>(r); size_t mx = 1; for (auto x : a) mx = std::max(mx, bits(x));
  { rp::describe("automatic levels ", rp::show(a, 200)); DacVector v(a); check(v, a, {}); if (a.size()) REQ(v.num_layers() >= 1 && v.num_layers() <= 8, "levels"); DacVector c(v); check(c, a, {}); }
  { std::vector<size_t> u; size_t s = 0; int k = r.below(4); while (s < mx) { size_t w = k == 0 ? 1 : k == 1 ? 8 : k == 2 ? r.range(1, 64) : r.range(1, mx); w = std::min<size_t>(w, 64 - s); u.push_back(w); s += w; } if (r.coin(1, 3)) for (int e = r.below(3); e-- && s < 64;) { size_t w = r.range(1, 64 - s); u.push_back(w); s += w; }
    rp::describe("levels ", rp::show(u, 70), " values ", rp::show(a, 200)); DacVector v(a, u); check(v, a, a.size() ? u : std::vector<size_t>{}); if (a.size()) REQ(v.num_layers() == u.size(), "number of levels"); std::vector<int> ui(u.begin(), u.end()); DacVector v2(a, ui); check(v2, a, {}); }
  rp::nontrivial += a.size() > 0; }
CASE(u64) { run<uint64_t>(r); }
CASE(u32) { run<uint32_t>(r); }
CASE(u8) { run<uint8_t>(r); }
CASE(dflt) { rp::describe("default DacVector"); DacVector v; REQ(v.size() == 0 && v.empty() && v.begin() == v.end(), "default is empty"); auto a = values<uint64_t>(r); v = DacVector(a); check(v, a, {}); }
