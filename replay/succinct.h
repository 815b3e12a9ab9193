#include "replay.h"
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/SuccinctBitVector.hpp"
using namespace sim_ds; using rp::Rng;
// bit sequences of varied length and density; lengths hit word and block boundaries, densities hit the 512-ones tips
static std::vector<char> seq(Rng& r) {
  size_t n = r.size(r.coin(1, 4) ? 40000 : 5000); std::vector<char> m(n); int mode = r.below(8); uint64_t d = 1 + r.below(100); std::string how = "density ";
  for (size_t i = 0; i < n; i++) switch (mode) { case 0: m[i] = 1; break; case 1: m[i] = 0; break; case 2: m[i] = i % d == 0; break; case 3: m[i] = (i / 512) % 2; break; case 4: m[i] = (i / 64) % 3 == 0; break; case 5: m[i] = n - i < 600; break; case 6: m[i] = r.below(200) < d; break; default: m[i] = r.below(100) < d; }
  rp::describe("length ", n, " pattern ", mode, " parameter ", d); return m; }
static BitVector make(Rng& r, const std::vector<char>& m) { size_t n = m.size(); BitVector b; switch (r.below(4)) { case 0: b = BitVector(m); break; case 1: b = BitVector(n); for (size_t i = 0; i < n; i++) b[i] = m[i]; break;
    case 2: for (auto x : m) b.push_back(x); break; default: b = BitVector(n + 1 + r.below(700), true); for (size_t i = 0; i < n; i++) b[i] = m[i]; b.resize(n); } return b; }
