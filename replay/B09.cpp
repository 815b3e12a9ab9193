#include "replay.h"
#include "sim_ds/basic.hpp"
#include "sim_ds/MultipleVector.hpp"
using namespace sim_ds; using rp::Rng; using R = std::vector<std::vector<uint64_t>>;
static std::string lg; static void L(const std::string& s) { lg += s + "; "; rp::describe(lg.size() > 1500 ? "..." + lg.substr(lg.size() - 1500) : lg); }
template <class... A> static std::string S(const A&... a) { std::ostringstream o; (void)std::initializer_list<int>{((o << a), 0)...}; return o.str(); }
template <class F, int... I> static void dispatch_(int id, F f, std::integer_sequence<int, I...>) { (void)std::initializer_list<int>{(id == I ? (f(std::integral_constant<int, I>{}), 0) : 0)...}; }
template <class F> static void dispatch(int id, F f) { dispatch_(id, f, std::make_integer_sequence<int, 9>{}); }
static uint64_t rd(MultipleVector& v, size_t i, int f, int how) { uint64_t x = 0; const MultipleVector& c = v; dispatch(f, [&](auto K) { constexpr int k = decltype(K)::value; switch (how) { case 0: x = c.nested_element<k>(i); break; case 1: x = v.block(i).get<k>(); break; case 2: x = c.block(i).get<k>(); break; case 3: x = v.block(i).get_at(f); break; case 4: x = v.block(i).restricted_get<k, uint64_t>(); break; default: x = c.block(i).restricted_get<k, uint64_t>(); } }); return x; }
static void wr(MultipleVector& v, size_t i, int f, uint64_t x, int how) { dispatch(f, [&](auto K) { constexpr int k = decltype(K)::value; switch (how) { case 0: v.set_nested_element<k>(i, x); break; case 1: v.block(i).set<k>(x); break; case 2: v.block(i).set_at(f, x); break; default: v.block(i).restricted_set<k, uint64_t>(x); } }); }
static void same(MultipleVector& v, const R& m, const std::vector<size_t>& w, const char* t, Rng& r) { REQ(v.size() == m.size(), t, " size ", v.size(), " expected ", m.size()); for (size_t f = 0; f < w.size(); f++) REQ(v.element_size(f) == w[f], t, " element_size ", f); for (size_t i = 0; i < m.size(); i++) for (size_t f = 0; f < w.size(); f++) { int how = r.below(6); uint64_t g = rd(v, i, f, how); REQ(g == m[i][f], t, " record ", i, " field ", f, " way ", how, " got ", g, " expected ", m[i][f]); } }
static std::vector<size_t> widths(Rng& r) { std::vector<size_t> w(r.range(1, 9)); for (auto& x : w) x = r.coin(1, 3) ? 8 : r.range(1, 8); return w; }
template <class T> static std::vector<T> as(const std::vector<size_t>& w) { return std::vector<T>(w.begin(), w.end()); }
static void conf(MultipleVector& v, const std::vector<size_t>& w, Rng& r) { switch (r.below(3)) { case 0: v.set_element_sizes(as<size_t>(w)); break; case 1: v.set_element_sizes(as<uint8_t>(w)); break; default: v.set_element_sizes(as<int>(w)); } }
CASE(history) { lg.clear(); auto w = widths(r); MultipleVector v; if (w.size() == 2 && r.coin()) v = MultipleVector({w[0], w[1]}); else if (w.size() == 3 && r.coin()) v = MultipleVector({w[0], w[1], w[2]}); else conf(v, w, r); L("fields " + rp::show(w)); R m; size_t n = r.size(60);
  if (r.coin(1, 4)) { w = widths(r); conf(v, w, r); L("reconfigured " + rp::show(w)); }
  v.resize(n); m.assign(n, std::vector<uint64_t>(w.size(), 0)); L(S("resize(", n, ")")); same(v, m, w, "start", r); int ops = r.range(1, 30);
  while (ops--) { switch (r.below(7)) {
    case 0: case 1: case 2: if (m.size()) { size_t i = r.coin(1, 3) ? m.size() - 1 : r.below(m.size()); int f = r.below(w.size()); uint64_t x = r.width(8 * w[f]); int how = r.below(4); L(S("[", i, "].", f, "=", x, " way ", how)); wr(v, i, f, x, how); m[i][f] = x; } break;
    case 3: { size_t k = r.coin() ? r.size(60) : m.size() + r.below(3); L(S("resize(", k, ")")); v.resize(k); m.resize(k, std::vector<uint64_t>(w.size(), 0)); break; }
    case 4: { L("emplace_back"); v.emplace_back(); m.emplace_back(w.size(), 0); break; }
    case 5: { std::vector<uint64_t> x(w.size()); for (size_t f = 0; f < x.size(); f++) x[f] = r.width(8 * w[f]); L("push_back " + rp::show(x)); switch (w.size()) { case 1: v.push_back({x[0]}); break; case 2: v.push_back({x[0], x[1]}); break; case 3: v.push_back({x[0], x[1], x[2]}); break; default: v.push_back({x[0], x[1], x[2], x[3]}); for (size_t f = 4; f < x.size(); f++) x[f] = 0; } m.push_back(x); break; }
    default: { if (r.coin(1, 3) && m.size() && w.size() > 1) { size_t i = r.below(m.size()); uint64_t a = r.width(8 * w[0]), b = r.width(8 * w[1]); L(S("block(", i, ")={", a, ",", b, "}")); v.block(i) = {a, b}; m[i][0] = a; m[i][1] = b; break; } if (r.coin()) { v.reserve(m.size() + r.below(20)); L("reserve"); break; } size_t k = r.size(60); std::vector<uint64_t> x(w.size(), 0); x[0] = r.width(8 * w[0]); if (w.size() > 1) x[1] = r.width(8 * w[1]); L(S("resize(", k, ", fields ", x[0], ")")); if (w.size() > 1) v.resize(k, {x[0], x[1]}); else v.resize(k, {x[0]}); m.resize(k, x); break; } }
    same(v, m, w, "after last operation", r); }
  MultipleVector c(v); same(c, m, w, "copy", r);
  if (r.coin(1, 4)) { w = widths(r); conf(v, w, r); L("reconfigured " + rp::show(w)); size_t k = r.size(30); v.resize(0); v.resize(k); m.assign(k, std::vector<uint64_t>(w.size(), 0)); same(v, m, w, "after reconfiguration", r); if (k) { size_t i = k - 1; int f = w.size() - 1; uint64_t x = r.width(8 * w[f]); wr(v, i, f, x, r.below(4)); m[i][f] = x; same(v, m, w, "write after reconfiguration", r); } }
  rp::nontrivial += m.size() > 0; }
CASE(narrow) { lg.clear(); auto w = widths(r); MultipleVector v; conf(v, w, r); L("fields " + rp::show(w)); size_t n = r.range(1, 10); v.resize(n); size_t i = r.below(n); uint32_t x = r.width(std::min<int>(32, 8 * w[0])); 
  v.block(i).restricted_set<0, uint32_t>(x); L(S("restricted_set<0,uint32_t>(", x, ")")); const MultipleVector& c = v; if (w[0] <= 4) { REQ((v.block(i).restricted_get<0, uint32_t>()) == x, "restricted_get"); REQ((c.block(i).restricted_get<0, uint32_t>()) == x, "restricted_get const"); REQ((c.nested_element<0>(i)) == x, "read"); } for (size_t f = 1; f < w.size(); f++) REQ(rd(v, i, f, r.below(6)) == 0, "neighbour"); rp::nontrivial++; }
