#include "replay.h"
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/CDRWArray.hpp"
using namespace sim_ds; using rp::Rng; using M = std::vector<uint64_t>;
static std::string lg; static void L(const std::string& s) { lg += s + "; "; rp::describe(lg.size() > 2000 ? lg.substr(0, 60) + "..." + lg.substr(lg.size() - 1900) : lg); }
template <class... A> static std::string S(const A&... a) { std::ostringstream o; (void)std::initializer_list<int>{((o << a), 0)...}; return o.str(); }
template <class V> static void same(const V& v, const M& m, const char* w) { REQ(v.size() == m.size(), w, " size ", v.size(), " expected ", m.size()); for (size_t i = 0; i < m.size(); i++) REQ(v.get(i) == m[i], w, " element ", i, " got ", v.get(i), " expected ", m[i]); }
CASE(array) { lg.clear(); size_t n = r.size(150); M m(n); auto val = [&] { return r.coin() ? r.word() : r.width(r.range(1, 64)); }; CDRWArray a(n); L(S("CDRWArray(", n, ")")); if (r.coin()) { for (auto& x : m) x = val(); a = CDRWArray(m.begin(), m.end()); L("from " + rp::show(m, 160)); } same(a, m, "start"); int ops = r.below(200); while (n && ops--) { size_t i = r.coin() ? r.below(n) : r.below(std::min<size_t>(n, 3)); auto x = val(); L(S("[", i, "]=", x)); a.set(i, x); m[i] = x; REQ(a.get(i) == x, "just written"); if (r.coin(1, 8)) same(a, m, "after last write"); } same(a, m, "end"); rp::nontrivial += n > 0; }
CASE(vector) { lg.clear(); size_t n = r.coin() ? 0 : r.size(70); M m(n); auto val = [&] { return r.coin() ? r.word() : r.width(r.range(1, 64)); }; CDRWVector a(n); L(S("CDRWVector(", n, ")")); int ops = r.range(1, 120);
  while (ops--) { size_t k = m.size(); switch (r.below(8)) { case 0: case 1: case 2: { auto x = val(); L(S("push_back(", x, ")")); a.push_back(x); m.push_back(x); break; } case 3: if (k) { size_t i = r.below(k); auto x = val(); L(S("[", i, "]=", x)); a.set(i, x); m[i] = x; } break; case 4: if (k) { L("pop_back"); a.pop_back(); m.pop_back(); } break;
    case 5: { size_t c = r.below(100); if (c < k) { L(S("resize(", c, ")")); a.resize(c); m.resize(c); } else { L(S("resize(", c, ") then fill")); a.resize(c); m.resize(c); for (size_t i = k; i < c; i++) { auto x = val(); a.set(i, x); m[i] = x; } } break; } case 6: { size_t c = r.below(100); L(S("reserve(", c, ")")); a.reserve(c); break; } case 7: if (r.coin(1, 4)) { if (r.coin()) { L("clear"); a.clear(); m.clear(); } else { L("shrink_to_fit"); a.shrink_to_fit(); } } break; }
    REQ(a.empty() == m.empty(), "empty"); REQ(a.capacity() >= a.size(), "capacity"); same(a, m, "after last operation"); } rp::nontrivial += m.size() > 0; }
