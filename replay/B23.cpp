#include "replay.h"
#include <algorithm>
#include <iostream>
#include "sim_ds/basic.hpp"
#include "sim_ds/calc.hpp"
using namespace sim_ds; using rp::Rng;
static size_t need(uint64_t v, size_t u) { size_t s = 1; while (s * u < 64 && v >> (s * u)) s++; return s; }
CASE(units) { uint64_t v = r.word(); size_t u = r.range(1, 64); volatile size_t vu = u; rp::describe("value=", v, " unit=", u); REQ(calc::SizeFitsInUnits(v, vu) == need(v, u), "SizeFitsInUnits ", v, " ", u); REQ(calc::SizeFitsInBits(v) == need(v, 1), "SizeFitsInBits ", v); REQ(calc::SizeFitsInBytes(v) == need(v, 8), "SizeFitsInBytes ", v);
  REQ(calc::size_fits<3>(v) == need(v, 3) && calc::size_fits<7>(v) == need(v, 7) && calc::size_fits<16>(v) == need(v, 16) && calc::size_fits<63>(v) == need(v, 63), "size_fits ", v); rp::nontrivial += v != 0; }
CASE(aslist) { uint64_t v = r.word(); std::vector<size_t> s; size_t sum = 0, b = need(v, 1); while (sum < b) { s.push_back(r.coin() ? r.range(1, 8) : r.range(1, 63)); sum += s.back(); } if (r.coin()) s.push_back(r.range(1, 8)); rp::describe("value=", v, " widths=", rp::show(s)); size_t k = 0, c = 0; while (c < b) c += s[k++]; REQ(calc::SizeFitsAsList(v, s) == k, "SizeFitsAsList"); rp::nontrivial++; }
template <class C> static void check(const C& a, size_t lv) { std::vector<size_t> f, cf, sp; size_t w = 0; std::vector<size_t> want; for (auto x : a) { size_t b = need(x, 1); w = std::max(w, b); want.resize(w); want[b - 1]++; }
  calc::bit_length_frequencies(a, &f); REQ(f == want, "bit_length_frequencies"); for (size_t i = w; i > 1; i--) want[i - 2] += want[i - 1]; calc::cummulative_frequency_list(a, &cf); REQ(cf == want, "cummulative_frequency_list");
  sp = {99, 99}; calc::split_positions_optimized_for_dac(a, &sp, lv); if (a.empty()) return; size_t s = 0; for (auto x : sp) { REQ(x >= 1, "width is positive: ", rp::show(sp)); s += x; } REQ(s == w, "widths ", rp::show(sp), " sum to ", s, ", largest value has ", w, " bits"); REQ(sp.size() <= lv && sp.size() >= 1, "levels ", rp::show(sp), " allowed ", lv); rp::nontrivial++; }
CASE(split) { size_t n = r.coin() ? r.size(40) : r.size(4000); int mode = r.below(5); int w = r.range(1, 64); std::vector<uint64_t> a(n); for (size_t i = 0; i < n; i++) { switch (mode) { case 0: a[i] = r.width(w); break; case 1: a[i] = r() >> r.below(64); break; case 2: a[i] = r.coin(63, 64) ? r.below(4) : r() >> r.below(64); break; case 3: a[i] = i ? (uint64_t)(1ull << std::min<uint64_t>(63, __builtin_ctzll(r() | 1ull << 63))) : r.width(w); break; default: a[i] = (i & (i - 1)) ? r.below(2) : 1ull << (__builtin_ctzll(i | 1ull << 62) % 64); } }
  size_t lv = r.coin() ? 8 : r.range(1, 12); rp::describe("levels<=", lv, " values ", rp::show(a, 400)); if (n && r.coin()) { a[r.below(n)] = r.width(w); } check(a, lv); }
CASE(skewed) { // geometric frequencies: long chains of levels
  int w = r.range(2, 40); std::vector<uint64_t> a; double f = 1; int rate = r.range(2, 5); for (int b = w; b >= 1; b--) { size_t c = std::min<size_t>(20000, (size_t)f); for (size_t i = 0; i < c; i++) a.push_back((1ull << (b - 1)) | (r() & ((1ull << (b - 1)) - 1))); f = f * (10 + rate) / 10 + r.below(2); if (f > 30000) f = 30000; } size_t lv = r.range(1, 9); rp::describe("geometric widths 1..", w, " growth ", rate, " total ", a.size(), " levels<=", lv, " values ", rp::show(a, 200)); check(a, lv); }
CASE(u32) { std::vector<uint32_t> a(r.size(200)); for (auto& x : a) x = (uint32_t)(r() >> r.below(64)); rp::describe("u32 ", rp::show(a, 200)); check(a, 8); }
