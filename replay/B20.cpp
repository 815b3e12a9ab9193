#include "replay.h"
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/string_util/SuffixArray.hpp"
using namespace sim_ds; using rp::Rng;
static std::string fibo(int n) { std::string a = "a", b = "b"; while (n--) { auto c = b + a; a = b; b = c; } return b; }
static void check(const std::string& t, bool rw) { size_t n;
  rp::describe("string ", rp::bytes(t, 200)); std::ostringstream cap; auto* old = std::cout.rdbuf(cap.rdbuf()); SuffixArray sa(t); std::cout.rdbuf(old); std::stringstream s; sa.WriteSA(s); sa.WriteLCP(s); FitVector a(s), l(s); REQ(a.size() == t.size(), "length ", a.size()); REQ(l.size() == t.size(), "LCP length ", l.size()); n = t.size(); std::vector<bool> seen(n);
  for (size_t i = 0; i < n; i++) { size_t p = a[i]; REQ(p < n && !seen[p], "not a permutation at ", i); seen[p] = true; } auto sv = std::string_view(t); for (size_t i = 0; i + 1 < n; i++) { size_t x = a[i], y = a[i + 1], m = 0; while (x + m < n && y + m < n && t[x + m] == t[y + m]) m++; REQ(y + m < n && (x + m == n || (uint8_t)t[x + m] < (uint8_t)t[y + m]), "order at ", i, ": ", x, " before ", y); REQ((size_t)l[i] == m, "LCP ", i, " got ", (size_t)l[i], " expected ", m); REQ(sa.suffix(x) == sv.substr(x) && sa.char_at(x) == (uint8_t)t[x], "suffix view"); } if (n) REQ((size_t)l[n - 1] == 0, "last LCP"); rp::nontrivial += n > 1;
  if (!rw) return; std::stringstream w; sa.Write(w); SuffixArray c; c.Read(w); std::stringstream s2, s3; c.Write(s2); sa.Write(s3); REQ(s2.str() == s3.str(), "write/read"); }
CASE(sort) { int k = r.coin() ? r.range(1, 3) : r.range(1, 256), hi = r.coin() ? 0 : r.below(257 - k); auto ch = [&] { return (char)(hi + r.below(k)); }; std::string t; size_t n = r.coin(1, 10) ? r.size(2000) : r.size(120); switch (r.below(5)) { case 0: case 1: while (t.size() < n) t += ch(); break; case 2: { std::string u; int l = r.range(1, 6); while (l--) u += ch(); while (t.size() < n) t += u; if (r.coin() && n) t[r.below(t.size())] = ch(); break; } case 3: t = fibo(r.below(13)); break; default: t += ch(); while (t.size() < n) { auto h = t; t += h; t += ch(); } } check(t, true); }
// every string over an alphabet of 2 (length <= 9), 3 (<= 6) or 4 (<= 5) letters, one length per run
CASE(all_short) { static const int K[] = {2, 3, 4}, N[] = {9, 6, 5}; int w = r.below(3), k = K[w], n = r.below(N[w] + 1), hi = r.coin() ? 126 : 'a'; std::string t(n, (char)hi); for (;;) { check(t, false); int i = n; while (i && t[i - 1] == (char)(hi + k - 1)) t[--i] = (char)hi; if (!i) break; t[i - 1]++; } }
