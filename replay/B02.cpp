#include "succinct.h"
template <bool T> static void go(Rng& r) { auto m = seq(r); size_t n = m.size(); BitVector src = make(r, m); SuccinctBitVector<T> s(src); if (r.coin()) { SuccinctBitVector<T> t(BitVector{src}); std::swap(s, t); }
  REQ(s.size() == n, "size"); size_t c = 0; for (size_t i = 0; i <= n; i++) { REQ(s.rank(i) == c, "rank(", i, ")"); REQ(s.rank_1(i) == c, "rank_1(", i, ")"); REQ(s.rank_0(i) == i - c, "rank_0(", i, ")"); if (i < n) { REQ(bool(s[i]) == bool(m[i]), "bit ", i); c += m[i]; } } rp::nontrivial += c > 0; }
CASE(rank_T) { go<true>(r); }
CASE(rank_F) { go<false>(r); }
CASE(empty) { rp::describe("default constructed"); SuccinctBitVector<true> a; SuccinctBitVector<false> b; SuccinctBitVector<true> c{BitVector()}; REQ(a.rank(0) == 0 && b.rank(0) == 0 && c.rank(0) == 0 && a.rank_0(0) == 0, "rank(0) of an empty sequence"); REQ(a.size() == 0, "size"); rp::nontrivial++; }
CASE(huge) { if (r.below(40)) return; size_t n = 600000 + r.below(200000); std::vector<char> m(n); uint64_t d = 50 + r.below(51); for (auto& x : m) x = r.below(100) < d; rp::describe("length ", n, " density ", d); SuccinctBitVector<true> s{BitVector(m)}; size_t c = 0; for (size_t i = 0; i <= n; i++) { REQ(s.rank(i) == c, "rank(", i, ")"); if (i < n) c += m[i]; } rp::nontrivial++; }
