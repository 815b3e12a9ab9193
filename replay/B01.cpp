#include "replay.h"
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/BitVector.hpp"
using namespace sim_ds; using rp::Rng; using M = std::vector<char>;
static std::string log_;
static void L(const std::string& s) { log_ += s + "; "; rp::describe(log_.size() > 1500 ? "..." + log_.substr(log_.size() - 1500) : log_); }
template <class... A> static std::string S(const A&... a) { std::ostringstream o; (void)std::initializer_list<int>{((o << a), 0)...}; return o.str(); }
static void same(const BitVector& b, const M& m, const char* w) { REQ(b.size() == m.size(), w, " size"); REQ(b.empty() == m.empty(), w, " empty"); for (size_t i = 0; i < m.size(); i++) REQ(bool(b[i]) == bool(m[i]), w, " position ", i);
  REQ(b.end() - b.begin() == (ptrdiff_t)m.size(), w, " end-begin"); size_t i = 0; for (auto it = b.begin(); it != b.end(); ++it, i++) REQ(bool(*it) == bool(m[i]), w, " iterator ", i); if (!m.empty()) { REQ(bool(b.front()) == bool(m.front()), "front"); REQ(bool(b.back()) == bool(m.back()), "back"); } }
static size_t pick(Rng& r, size_t n) { return r.coin() ? r.below(n + 1) : std::min<size_t>(n, 64 * r.below(n / 64 + 2) + r.below(3)); }
CASE(history) { log_.clear(); size_t n = r.size(1100); M m; BitVector b; switch (r.below(5)) { case 0: L("BitVector()"); break; case 1: b = BitVector(n); m.assign(n, 0); L(S("BitVector(", n, ")")); break;
    case 2: { bool v = r.coin(); b = BitVector(n, v); m.assign(n, v); L(S("BitVector(", n, ",", v, ")")); break; } case 3: { std::vector<uint8_t> a(n); for (auto& x : a) x = r.coin(); b = BitVector(a); m.assign(a.begin(), a.end()); L(S("BitVector(array of ", n, ")")); break; } default: b = BitVector({true, false, true}); m = {1, 0, 1}; L("BitVector({1,0,1})"); }
  same(b, m, "constructor"); int ops = r.range(1, 12);
  while (ops--) { size_t k = m.size(); switch (r.below(10)) {
    case 0: { bool v = r.coin(); b.push_back(v); m.push_back(v); L(S("push_back(", v, ")")); break; }
    case 1: { size_t c = r.size(700); bool v = r.coin(); b.resize(c, v); m.resize(c, v); L(S("resize(", c, ",", v, ")")); break; }
    case 2: { size_t c = r.size(700); b.resize(c); m.resize(c, 0); L(S("resize(", c, ")")); break; }
    case 3: { size_t c = r.size(700); bool v = r.coin(); b.assign(c, v); m.assign(c, v); L(S("assign(", c, ",", v, ")")); break; }
    case 4: case 5: { size_t i = pick(r, k), j = pick(r, k); if (i > j) std::swap(i, j); bool v = r.coin(); L(S("fill(", i, ",", j, ",", v, ")")); b.fill(b.begin() + i, b.begin() + j, v); std::fill(m.begin() + i, m.begin() + j, v); break; }
    case 6: case 7: if (k) { size_t i = std::min(pick(r, k), k - 1); bool v = r.coin(); L(S("[", i, "]=", v)); if (r.coin()) b[i] = v; else { auto it = b.begin(); it += i; *it = v; } m[i] = v; } break;
    case 8: if (k) { size_t i = std::min(pick(r, k), k - 1), j = std::min(pick(r, k), k - 1); L(S("[", i, "]=[", j, "]")); b[i] = b[j]; m[i] = m[j]; } break;
    case 9: { if (r.coin()) b.reserve(r.size(900)); else b.shrink_to_fit(); L("reserve/shrink_to_fit"); break; } }
    same(b, m, "after last operation"); }
  rp::nontrivial += m.size() > 0; }
CASE(iterators) { size_t n = 1 + r.size(700); BitVector b(n); M m(n); for (size_t i = 0; i < n; i++) b[i] = m[i] = r.coin(); const BitVector& c = b;
  for (int t = 0; t < 40; t++) { size_t i = pick(r, n), j = std::min(pick(r, n), n - 1); ptrdiff_t d = (ptrdiff_t)j - (ptrdiff_t)i; rp::describe("size ", n, " from ", i, " to ", j);
    auto x = b.begin() + i, y = b.begin() + j; REQ(x - y == -d, "difference"); REQ((x == y) == (i == j) && (x != y) == (i != j) && (x < y) == (i < j) && (x <= y) == (i <= j) && (x > y) == (i > j) && (x >= y) == (i >= j), "comparison");
    auto z = x; z += d; REQ(z == y && bool(*z) == bool(m[j]), "+="); z = x; z -= -d; REQ(z == y && bool(*z) == bool(m[j]), "-="); REQ(bool(x[d]) == bool(m[j]), "[]");
    auto cx = c.begin() + i; if (d >= 0) REQ(bool(*(cx + d)) == bool(m[j]), "+"); else REQ(bool(*(cx - (size_t)-d)) == bool(m[j]), "-");
    if (i < n) { auto w = x; ++w; REQ(w - b.begin() == (ptrdiff_t)i + 1, "++"); if (i + 1 < n) REQ(bool(*w) == bool(m[i + 1]), "*++"); } if (i) { auto w = x; --w; REQ(w - b.begin() == (ptrdiff_t)i - 1 && bool(*w) == bool(m[i - 1]), "--"); } }
  bool th = false; try { (void)bool(c.at(n + r.below(3))); } catch (std::out_of_range&) { th = true; } REQ(th, "at out of range"); REQ(bool(c.at(n - 1)) == bool(m[n - 1]), "at"); rp::nontrivial++; }
