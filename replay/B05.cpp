#include "replay.h"
#include "sim_ds/bit_util256.hpp"
using namespace sim_ds; using rp::Rng;
struct Blk { alignas(32) uint64_t w[4]; bool b(int p) const { return w[p / 64] >> (p % 64) & 1; } };
static Blk rnd(Rng& r) { Blk x; switch (r.below(4)) { case 0: for (auto& v : x.w) v = r.word(); break; case 1: for (auto& v : x.w) v = 0; x.w[r.below(4)] = r.word(); break; case 2: for (auto& v : x.w) v = 0; { int p = r.below(256); x.w[p / 64] |= 1ull << p % 64; } break; default: for (auto& v : x.w) v = r(); } return x; }
static void d(const Blk& x, int m) { rp::describe(x.w[0], ",", x.w[1], ",", x.w[2], ",", x.w[3], " mask=", m); }
CASE(scan) { Blk x = rnd(r); d(x, 0); int t = 0, l = 0, c = 0; while (t < 256 && !x.b(t)) t++; while (l < 256 && !x.b(255 - l)) l++; for (int i = 0; i < 256; i++) c += x.b(i);
  REQ(bit_util::ctz256(x.w) == t, "ctz256 want ", t); REQ(bit_util::clz256(x.w) == l, "clz256 want ", l); REQ(bit_util::popcnt256(x.w) == c, "popcnt256 want ", c); REQ(bit_util::is_zero256(x.w) == (c == 0), "is_zero256"); rp::nontrivial += c > 0; }
CASE(setcopy) { struct { uint64_t g0[4]; Blk b; uint64_t g1[4]; } s; memset(&s, 0xA5, sizeof s); auto c = s; bool v = r.coin(); rp::describe("set ", v); bit_util::set256_epi1(v, s.b.w); for (auto w : s.b.w) REQ(w == (v ? ~0ull : 0), "set256"); REQ(!memcmp(s.g0, c.g0, 32) && !memcmp(s.g1, c.g1, 32), "guard");
  Blk x = rnd(r); d(x, -1); bit_util::copy256_epi64(x.w, s.b.w); REQ(!memcmp(x.w, s.b.w, 32), "copy256"); REQ(!memcmp(s.g0, c.g0, 32) && !memcmp(s.g1, c.g1, 32), "guard"); rp::nontrivial++; }
CASE(xormap) { struct { uint64_t g0[4]; Blk b; uint64_t g1[4]; } s; memset(&s, 0xA5, sizeof s); auto c = s; Blk x = rnd(r), z; int m = r.coin() ? 1 << r.below(8) : r.below(256); d(x, m); Blk y = x; bit_util::xor_map(y.w, m, s.b.w); for (int p = 0; p < 256; p++) REQ(s.b.b(p ^ m) == x.b(p), "xor_map bit ", p); REQ(!memcmp(x.w, y.w, 32), "source changed"); REQ(!memcmp(s.g0, c.g0, 32) && !memcmp(s.g1, c.g1, 32), "guard");
  bit_util::xor_map(s.b.w, m, z.w); REQ(!memcmp(z.w, x.w, 32), "involution"); rp::nontrivial++; }
