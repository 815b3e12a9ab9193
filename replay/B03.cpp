#include "succinct.h"
CASE(select) { auto m = seq(r); BitVector src = make(r, m); SuccinctBitVector<true> s(src); size_t k = 0; for (size_t i = 0; i < m.size(); i++) if (m[i]) { REQ(s.select(k) == i, "select(", k, ") want ", i); REQ(s.rank(i) == k, "rank(", i, ")"); k++; } rp::nontrivial += k > 0; }
CASE(huge) { if (r.below(40)) return; size_t n = 600000 + r.below(200000); std::vector<char> m(n); uint64_t d = 1 + r.below(100); for (auto& x : m) x = r.below(100) < d; rp::describe("length ", n, " density ", d); SuccinctBitVector<true> s{BitVector(m)}; size_t k = 0; for (size_t i = 0; i < n; i++) if (m[i]) { REQ(s.select(k) == i, "select(", k, ")"); k++; } rp::nontrivial++; }
CASE(sparse) { size_t n = 1 + r.size(100000); std::vector<char> m(n); size_t c = r.below(1200); for (size_t i = 0; i < c; i++) m[r.coin() ? r.below(n) : n - 1 - r.below(std::min<size_t>(n, 700))] = 1; rp::describe("length ", n, " about ", c, " ones"); SuccinctBitVector<true> s{BitVector(m)}; size_t k = 0; for (size_t i = 0; i < n; i++) if (m[i]) { REQ(s.select(k) == i, "select(", k, ") want ", i); k++; } rp::nontrivial += k > 0; }
// more than 2^16 blocks: the directories must not be narrower than the block numbers (once per run)
CASE(wide) { static bool done = false; if (done) return; done = true; size_t n = 512ull * (66000 + r.below(3000)) + r.below(512), a = r.below(n), b = a + r.below(n - a); rp::describe("length ", n, " all ones except [", a, ",", b, ")"); BitVector v(n, true); v.fill(v.begin() + a, v.begin() + b, false); SuccinctBitVector<true> s(std::move(v)); size_t m = n - (b - a); for (size_t k = 0; k < m; k += 1 + r.below(2000)) REQ(s.select(k) == (k < a ? k : k + (b - a)), "select(", k, ")"); if (m) REQ(s.select(m - 1) == (m - 1 < a ? m - 1 : n - 1), "last"); rp::nontrivial++; }
