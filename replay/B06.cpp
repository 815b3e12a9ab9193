#include "replay.h"
#include "sim_ds/basic.hpp"
#include "sim_ds/FitVector.hpp"
using namespace sim_ds; using rp::Rng; using M = std::vector<uint64_t>;
static std::string log_;
static void L(const std::string& s) { log_ += s + "; "; rp::describe(log_.size() > 1500 ? "..." + log_.substr(log_.size() - 1500) : log_); }
template <class... A> static std::string S(const A&... a) { std::ostringstream o; (void)std::initializer_list<int>{((o << a), 0)...}; return o.str(); }
static void same(FitVector& v, const M& m, const char* w) { const FitVector& c = v; REQ(v.size() == m.size(), w, " size ", v.size()); REQ(v.empty() == m.empty(), w, " empty"); for (size_t i = 0; i < m.size(); i++) { REQ(uint64_t(v[i]) == m[i], w, " element ", i, " got ", uint64_t(v[i]), " expected ", m[i]); REQ(uint64_t(c[i]) == m[i] && uint64_t(c.at(i)) == m[i] && uint64_t(v.at(i)) == m[i], w, " const element ", i); }
  if (!m.empty()) { REQ(uint64_t(v.front()) == m.front() && uint64_t(c.front()) == m.front(), w, " front"); REQ(uint64_t(v.back()) == m.back() && uint64_t(c.back()) == m.back(), w, " back"); } }
CASE(history) { log_.clear(); int w = r.coin() ? r.range(1, 64) : std::min<int>(64, 1 << r.below(7)); uint64_t n = r.size(300); M m; auto val = [&] { return r.width(w); }; FitVector v(w); L(S("FitVector(", w, ")"));
  switch (r.below(3)) { case 0: break; case 1: { v = FitVector(w, n); m.assign(n, 0); L(S("FitVector(", w, ",", n, ")")); break; } case 2: { auto x = val(); v = FitVector(w, n, x); m.assign(n, x); L(S("FitVector(", w, ",", n, ",", x, ")")); break; } }
  REQ(v.unit_width() == (size_t)w, "unit_width"); same(v, m, "constructor"); int ops = r.range(1, 25);
  while (ops--) { size_t k = m.size(); switch (r.below(9)) {
    case 0: case 1: { auto x = val(); L(S("push_back(", x, ")")); v.push_back(x); m.push_back(x); break; }
    case 2: { size_t c = r.coin() ? r.size(300) : k + r.below(5) - std::min<size_t>(k, r.below(5)); auto x = val(); L(S("resize(", c, ",", x, ")")); v.resize(c, x); m.resize(c, x); break; }
    case 3: { size_t c = r.coin() ? r.size(300) : k + r.below(5) - std::min<size_t>(k, r.below(5)); L(S("resize(", c, ")")); v.resize(c); m.resize(c, 0); break; }
    case 4: { size_t c = r.size(200); auto x = val(); L(S("assign(", c, ",", x, ")")); v.assign(c, x); m.assign(c, x); break; }
    case 5: case 6: if (k) { size_t i = r.below(k); auto x = val(); L(S("[", i, "]=", x)); if (r.coin()) v[i] = x; else v.at(i) = x; m[i] = x; } break;
    case 7: if (k) { size_t i = r.below(k), j = r.below(k); L(S("[", i, "]=[", j, "]")); v[i] = v[j]; m[i] = m[j]; } break;
    case 8: if (r.coin()) { v.reserve(r.size(400)); L("reserve"); } else if (k) { auto x = val(); if (r.coin()) { v.front() = x; m.front() = x; } else { v.back() = x; m.back() = x; } L("front/back ="); } break; }
    same(v, m, "after last operation"); }
  bool th = false; try { (void)uint64_t(v.at(m.size() + r.below(3))); } catch (std::out_of_range&) { th = true; } REQ(th, "at beyond size"); FitVector w2(v); same(w2, m, "copy"); rp::nontrivial += m.size() > 0; }
template <class T> static void conv(Rng& r) { size_t n = r.size(300); int w = r.range(1, 8 * sizeof(T)); std::vector<T> a(n); for (auto& x : a) x = (T)r.width(w); if (n && r.coin()) a[r.below(n)] = (T)(w >= 64 ? ~0ull : (1ull << w) - 1); rp::describe("vector<uint", 8 * sizeof(T), "_t> ", rp::show(a, 200)); FitVector v(a); M m(a.begin(), a.end()); same(v, m, "converted"); uint64_t mx = 0; for (auto x : a) mx = std::max<uint64_t>(mx, x); if (n) { size_t b = 1; while (b < 64 && mx >> b) b++; REQ(v.unit_width() == b, "width ", v.unit_width()); } rp::nontrivial += n > 0; }
CASE(convert64) { conv<uint64_t>(r); }
CASE(convert32) { conv<uint32_t>(r); }
CASE(convert8) { conv<uint8_t>(r); }
