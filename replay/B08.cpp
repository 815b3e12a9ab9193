#include "replay.h"
#include "sim_ds/basic.hpp"
#include "sim_ds/MultiBitVector.hpp"
using namespace sim_ds; using rp::Rng;
template <unsigned U> static void history(Rng& r) {
  MultiBitVector<U> v; std::vector<uint8_t> m; const int K = 1 << U; size_t mx = r.size(r.coin(1, 12) ? 9000 : 700) + 1; int style = r.below(5); std::string log; 
  size_t ops = r.coin() ? mx : r.below(mx * 2 + 1); uint8_t run = r.below(K);
  auto put = [&](size_t i, uint8_t x) { if (i >= m.size()) m.resize(i + 1, 0); m[i] = x; v.set(i, x); if (log.size() < 600) log += std::to_string(i) + "=" + std::to_string(x) + " "; };
  if (style == 0) for (size_t i = 0; i < mx; i++) put(i, r.below(K));
  else if (style == 1) for (size_t i = 0; i < mx; i++) { if (r.coin(1, 50)) run = r.below(K); put(i, run); }
  else if (style == 2) for (size_t k = 0; k < ops; k++) put(r.below(mx), r.below(K));
  else if (style == 3) { for (size_t i = mx; i-- > 0;) put(i, r.coin(9, 10) ? K - 1 : r.below(K)); }
  else { size_t p = 0; for (size_t k = 0; k < 60; k++) { p += r.below(mx / 30 + 2); put(p, r.below(K)); } }
  if (r.coin(1, 4) && m.size()) { size_t n = m.size() - 1 + r.below(200); v.resize(n); log += "resize(" + std::to_string(n) + ") "; m.resize(n + 1, 0); }
  rp::describe("MultiBitVector<", U, "> of ", m.size(), " ", log);
  auto check = [&](const char* w) { for (size_t i = 0; i < m.size(); i++) REQ(v[i] == m[i], w, " index ", i, " got ", (int)v[i], " expected ", (int)m[i]); };
  check("access"); if (m.empty()) return; v.build(); check("access after build"); std::vector<size_t> cnt(K, 0);
  for (size_t i = 0; i < m.size(); i++) { if (m[i]) REQ(v.rank(i) == cnt[m[i]], "rank(", i, ") symbol ", (int)m[i], " got ", v.rank(i), " expected ", cnt[m[i]]); cnt[m[i]]++; }
  rp::nontrivial++;
  if (r.coin(1, 3)) { for (int k = 0; k < 20; k++) put(r.below(m.size() + 3), r.below(K)); v.build(); check("access after rebuild"); std::fill(cnt.begin(), cnt.end(), 0); for (size_t i = 0; i < m.size(); i++) { if (m[i]) REQ(v.rank(i) == cnt[m[i]], "rank after rebuild ", i); cnt[m[i]]++; } }
  for (int k = 0; k < 30; k++) { size_t i = r.below(m.size()); put(i, r.below(K)); size_t j = r.below(m.size()); REQ(v[i] == m[i] && v[j] == m[j], "after set ", i); } check("final"); }
CASE(two) { history<2>(r); }
CASE(three) { history<3>(r); }
CASE(one) { history<1>(r); }
