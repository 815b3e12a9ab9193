#include "replay.h"
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/CHT.hpp"
using namespace sim_ds; using rp::Rng;
struct Ident { explicit Ident(unsigned = 64) {} uint64_t hash(uint64_t x) const { return x; } uint64_t ihash(uint64_t x) const { return x; } };
static std::string lg; static void L(const std::string& s) { lg += s + "; "; rp::describe(lg.size() > 2500 ? lg.substr(0, 60) + "..." + lg.substr(lg.size() - 2300) : lg); }
template <class... A> static std::string S(const A&... a) { std::ostringstream o; (void)std::initializer_list<int>{((o << a), 0)...}; return o.str(); }
template <unsigned V, unsigned LF, class H> static void run(Rng& r) { lg.clear(); unsigned kb = r.coin() ? r.range(1, 8) : r.range(1, 64); size_t bs = r.coin() ? 8 : 1ull << r.range(r.coin(1, 6) ? 0 : 1, 7); CHT<V, LF, H> t(kb, bs); unsigned vb = V; if (!V) { vb = r.range(1, 64); t.set_value_width(vb); } L(S("CHT<", V, ",", LF, "> key_bits ", kb, " buckets ", bs, " value bits ", vb));
  std::map<uint64_t, uint64_t> m; std::vector<uint64_t> pool; int np = r.range(1, r.coin() ? 6 : 120); for (int i = 0; i < np; i++) { uint64_t k = r.width(kb); if (r.coin(1, 2) && pool.size()) k = (pool.back() + (r.coin() ? 8 : r.coin() ? 1 : 16)) & (kb >= 64 ? ~0ull : (1ull << kb) - 1); pool.push_back(k); }
  int ops = r.range(1, r.coin(1, 8) ? 400 : 60), er = r.below(4); auto probe = [&](uint64_t k) { auto p = t.get(k); auto it = m.find(k); REQ(p.first == (it != m.end()), "get(", k, ") present: ", p.first); if (p.first) REQ(p.second == it->second, "get(", k, ") got ", p.second, " expected ", it->second); };
  while (ops--) { uint64_t k = pool[r.below(pool.size())]; if (r.coin(er, 5)) { L(S("erase(", k, ")")); t.erase(k); m.erase(k); } else if (r.coin(1, 40)) { size_t n = r.below(60); L(S("reserve(", n, ")")); t.reserve(n); } else { uint64_t v = r.width(vb); L(S("set(", k, ",", v, ")")); t.set(k, v); m[k] = v; } REQ(t.size() == m.size(), "size ", t.size(), " expected ", m.size()); probe(k); probe(pool[r.below(pool.size())]); if (r.coin(1, 6)) for (auto q : pool) probe(q); }
  for (auto q : pool) probe(q); for (int i = 0; i < 20; i++) probe(r.width(kb)); auto c = t; std::swap(c, t); for (auto q : pool) probe(q); rp::nontrivial += m.size() > 1; }
CASE(default50) { run<16, 50, SplitMixHash>(r); }
CASE(wide90) { run<8, 90, SplitMixHash>(r); }
CASE(ident50) { run<16, 50, Ident>(r); }
CASE(ident90) { run<5, 90, Ident>(r); }
CASE(dynamic) { run<0, 50, SplitMixHash>(r); }
CASE(dynident) { run<0, 75, Ident>(r); }
CASE(low) { run<16, 10, Ident>(r); }
