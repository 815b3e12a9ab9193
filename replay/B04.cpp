#include "replay.h"
#include "sim_ds/bit_util.hpp"
using namespace sim_ds; using rp::Rng;
static int pc(uint64_t x) { int c = 0; while (x) { c += x & 1; x >>= 1; } return c; }
static uint64_t lowmask(uint64_t w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
CASE(popcounts) { uint64_t x = r.word(); rp::describe("x=", x); if (x) rp::nontrivial++;
  REQ(bit_util::popcnt64(x) == (uint64_t)pc(x), "popcnt64 x=", x); REQ(bit_util::popcnt32((uint32_t)x) == (uint32_t)pc((uint32_t)x), "popcnt32 x=", (uint32_t)x);
  REQ(bit_util::popcnt16((uint16_t)x) == pc((uint16_t)x), "popcnt16"); REQ(bit_util::popcnt8((uint8_t)x) == pc((uint8_t)x), "popcnt8");
  REQ(bit_util::popcnt<uint64_t>(x) == (uint64_t)pc(x), "popcnt<u64>"); REQ(bit_util::popcnt<uint32_t>(x) == (uint32_t)pc((uint32_t)x), "popcnt<u32>");
  REQ(bit_util::popcnt<uint16_t>(x) == pc((uint16_t)x), "popcnt<u16>"); REQ(bit_util::popcnt<uint8_t>(x) == pc((uint8_t)x), "popcnt<u8>");
  uint64_t l = r.below(65); rp::describe("x=", x, " len=", l); REQ(bit_util::cnt(x, l) == (uint64_t)pc(x & lowmask(l)), "cnt x=", x, " len=", l); }
CASE(tables) { for (int x = 0; x < 256; x++) { rp::describe("byte ", x); REQ(bit_util::popcnt8(x) == pc(x), "popcnt8"); int n = 0; for (int b = 0; b < 8; b++) if (x >> b & 1) { n++; REQ(bit_util::sel(x, n) == b + 1, "sel(", x, ",", n, ")"); } } rp::nontrivial++; }
CASE(tables16) { uint64_t hi = r.below(256); for (int x = 0; x < 256; x++) { uint32_t v = hi << 8 | x; rp::describe("half ", v); REQ(bit_util::popcnt16(v) == pc(v), "popcnt16 ", v); } rp::nontrivial++; }
CASE(groups) { uint64_t x = r.coin() ? r.word() : r(); if (r.coin()) { uint64_t p = r.below(64), q = r.below(4); x = 0; for (int i = 0; i < 22; i++) x |= (r.below(4) ? r.below(8) : q) << std::min<uint64_t>(63, 3 * i); (void)p; } rp::describe("x=", x);
  uint64_t c2[4] = {}, c3[8] = {}; for (int i = 0; i < 64; i += 2) c2[x >> i & 3]++; for (int i = 0; i + 3 <= 64; i += 3) c3[x >> i & 7]++; rp::nontrivial++;
  REQ(bit_util::popcnt11(x) == c2[3], "popcnt11 x=", x); REQ(bit_util::popcnt10(x) == c2[2], "popcnt10 x=", x);
  REQ(bit_util::popcnt111(x) == c3[7], "popcnt111 x=", x); REQ(bit_util::popcnt110(x) == c3[6], "popcnt110 x=", x); REQ(bit_util::popcnt101(x) == c3[5], "popcnt101 x=", x); REQ(bit_util::popcnt100(x) == c3[4], "popcnt100 x=", x); }
CASE(scan) { uint64_t x = r.word(); rp::describe("x=", x); int t = 0, l = 0; while (t < 64 && !(x >> t & 1)) t++; while (l < 64 && !(x >> (63 - l) & 1)) l++;
  REQ(bit_util::ctz(x) == t, "ctz64 x=", x); REQ(bit_util::clz(x) == l, "clz64 x=", x); uint32_t y = (uint32_t)(r.coin() ? x : x >> 32); t = l = 0; while (t < 32 && !(y >> t & 1)) t++; while (l < 32 && !(y >> (31 - l) & 1)) l++;
  rp::describe("x32=", y); REQ(bit_util::ctz(y) == t, "ctz32 x=", y); REQ(bit_util::clz(y) == l, "clz32 x=", y); rp::nontrivial += x != 0; }
CASE(select) { uint64_t x = r.word(); int n = 0; for (int b = 0; b < 64; b++) if (x >> b & 1) { n++; rp::describe("x=", x, " i=", n); REQ(bit_util::sel(x, n) == b + 1, "sel x=", x, " i=", n); } rp::nontrivial += n > 0; }
CASE(masks) { uint64_t w = r.below(65), o = r.below(64), x = r.word(); rp::describe("w=", w, " o=", o, " x=", x); volatile size_t vw = w; REQ(bit_util::WidthMask(vw) == lowmask(w), "WidthMask ", w); REQ(bit_util::OffsetMask(o) == 1ull << o, "OffsetMask ", o);
  REQ(bit_util::bextr(x, o, vw) == ((x >> o) & lowmask(w)), "bextr x=", x, " start=", o, " len=", w);
  REQ(bit_util::width_mask<0> == 0 && bit_util::width_mask<1> == 1 && bit_util::width_mask<9> == 511 && bit_util::width_mask<63> == lowmask(63) && bit_util::width_mask<64> == ~0ull, "width_mask");
  REQ(bit_util::offset_mask<0> == 1 && bit_util::offset_mask<63> == 1ull << 63 && bit_util::offset_mask<31> == 1ull << 31 && bit_util::offset_mask<32> == 1ull << 32, "offset_mask"); rp::nontrivial++; }
static uint64_t swp(uint64_t x, int n) { uint64_t y = 0; for (int b = 0; b < 64; b++) if (x >> b & 1) y |= 1ull << (b ^ n); return y; }
CASE(swaps) { uint64_t x = r.word(); rp::describe("x=", x); REQ(bit_util::swap_pi1(x) == swp(x, 1), "swap1 x=", x); REQ(bit_util::swap_pi2(x) == swp(x, 2), "swap2 x=", x); REQ(bit_util::swap_pi4(x) == swp(x, 4), "swap4 x=", x);
  REQ(bit_util::swap_pi8(x) == swp(x, 8), "swap8 x=", x); REQ(bit_util::swap_pi16(x) == swp(x, 16), "swap16 x=", x); REQ(bit_util::swap_pi32(x) == swp(x, 32), "swap32 x=", x); rp::nontrivial += x != 0; }
