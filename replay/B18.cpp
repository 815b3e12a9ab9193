#include "replay.h"
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/string_util/PatternMatching.hpp"
using namespace sim_ds; namespace pm = sim_ds::pattern_matching; using rp::Rng;
static std::string fibo(int n) { std::string a = "a", b = "b"; while (n--) { auto c = b + a; a = b; b = c; } return b; }
// the matcher sees exactly-sized heap copies, so that any read outside them is caught by the sanitizer
template <class F> static void run(Rng& r, F f) { int k = r.coin() ? r.range(1, 3) : r.range(1, 256); int hi = r.coin(1, 3) ? 256 - k : r.coin() ? 0 : 97 % (257 - k); auto ch = [&] { return (char)(hi + r.below(k)); }; std::string t, p; size_t n = r.coin(1, 8) ? r.size(1500) : r.below(60), m = r.range(1, r.coin(1, 5) ? 40 : 6);
  switch (r.below(5)) { case 0: case 1: while (t.size() < n) t += ch(); while (p.size() < m) p += ch(); break; case 2: { std::string u; int l = r.range(1, 4); while (l--) u += ch(); while (t.size() < n) t += u; while (p.size() < m) p += u; if (r.coin()) for (int e = r.below(3); e-- && t.size();) t[r.below(t.size())] = ch(); if (r.coin()) p.resize(m); break; } case 3: t = fibo(r.below(10)); p = fibo(r.below(6)); if (r.coin()) p += fibo(r.below(4)); break; default: while (p.size() < m) p += ch(); while (t.size() < n) { if (r.coin()) t += p.substr(0, r.below(p.size() + 1)); else if (r.coin()) t += p; else t += ch(); } }
  if (t.size() && r.coin(1, 3)) { size_t b = r.below(t.size()); p = t.substr(b, r.range(1, r.coin(1, 4) ? t.size() : 8)); } if (p.empty()) p = "x"; rp::describe("text ", rp::bytes(t, 200), " pattern ", rp::bytes(p, 60));
  std::vector<size_t> e; for (size_t i = 0; i + p.size() <= t.size(); i++) if (!t.compare(i, p.size(), p)) e.push_back(i); std::vector<char> tc(t.begin(), t.end()), pc(p.begin(), p.end()); std::unique_ptr<char[]> tt(new char[t.size()]), pp(new char[p.size()]); memcpy(tt.get(), t.data(), t.size()); memcpy(pp.get(), p.data(), p.size());
  auto g = f(std::string_view(tt.get(), t.size()), std::string_view(pp.get(), p.size())); REQ(g == e, "reported ", rp::show(g, 20), " expected ", rp::show(e, 20)); rp::nontrivial += e.size() > 0; }
CASE(simple) { run(r, pm::PatternMatchSimple); }
CASE(kmp) { run(r, pm::PatternMatchKMP); }
CASE(bm) { run(r, pm::PatternMatchBM); }
CASE(bom) { run(r, pm::PatternMatchBOM); }
CASE(turbobom) { run(r, pm::PatternMatchTurboBOM); }
CASE(sundayqs) { run(r, pm::PatternMatchSundayQS); }
CASE(sundayms) { run(r, pm::PatternMatchSundayMS); }
