// Extraction unit: entry points into sim_ds/bit_util.hpp (no logic of its own).
#include "sim_ds/bit_util.hpp"
#include "sim_ds/bit_util256.hpp"
using namespace sim_ds;
extern "C" {
uint64_t w_WidthMask(size_t w) { return bit_util::WidthMask(w); }
uint64_t w_OffsetMask(size_t w) { return bit_util::OffsetMask(w); }
uint64_t w_bextr(uint64_t x, size_t s, size_t l) { return bit_util::bextr(x, s, l); }
uint8_t w_popcnt8(uint8_t x) { return bit_util::popcnt8(x); }
uint16_t w_popcnt16(uint16_t x) { return bit_util::popcnt16(x); }
uint32_t w_popcnt32(uint32_t x) { return bit_util::popcnt32(x); }
uint64_t w_popcnt64(uint64_t x) { return bit_util::popcnt64(x); }
uint64_t w_popcnt_u64(uint64_t x) { return bit_util::popcnt<uint64_t>(x); }
uint32_t w_popcnt_u32(uint32_t x) { return bit_util::popcnt<uint32_t>(x); }
uint16_t w_popcnt_u16(uint16_t x) { return bit_util::popcnt<uint16_t>(x); }
uint8_t w_popcnt_u8(uint8_t x) { return bit_util::popcnt<uint8_t>(x); }
uint64_t w_cnt(uint64_t x, size_t l) { return bit_util::cnt<uint64_t>(x, l); }
uint64_t w_popcnt11(uint64_t x) { return bit_util::popcnt11(x); }
uint64_t w_popcnt10(uint64_t x) { return bit_util::popcnt10(x); }
uint64_t w_popcnt111(uint64_t x) { return bit_util::popcnt111(x); }
uint64_t w_popcnt110(uint64_t x) { return bit_util::popcnt110(x); }
uint64_t w_popcnt101(uint64_t x) { return bit_util::popcnt101(x); }
uint64_t w_popcnt100(uint64_t x) { return bit_util::popcnt100(x); }
int w_ctz32(uint32_t x) { return bit_util::ctz(x); }
int w_ctz64(uint64_t x) { return bit_util::ctz(x); }
int w_clz32(uint32_t x) { return bit_util::clz(x); }
int w_clz64(uint64_t x) { return bit_util::clz(x); }
int w_sel(uint64_t x, size_t i) { return bit_util::sel(x, i); }
uint64_t w_swap1(uint64_t x) { return bit_util::swap_pi1(x); }
uint64_t w_swap2(uint64_t x) { return bit_util::swap_pi2(x); }
uint64_t w_swap4(uint64_t x) { return bit_util::swap_pi4(x); }
uint64_t w_swap8(uint64_t x) { return bit_util::swap_pi8(x); }
uint64_t w_swap16(uint64_t x) { return bit_util::swap_pi16(x); }
uint64_t w_swap32(uint64_t x) { return bit_util::swap_pi32(x); }
void w_set256(bool b, uint64_t* p) { bit_util::set256_epi1(b, p); }
void w_copy256(const uint64_t* s, uint64_t* d) { bit_util::copy256_epi64(s, d); }
bool w_iszero256(const uint64_t* s) { return bit_util::is_zero256(s); }
int w_popcnt256(const uint64_t* s) { return bit_util::popcnt256(s); }
int w_ctz256(const uint64_t* s) { return bit_util::ctz256(s); }
int w_clz256(const uint64_t* s) { return bit_util::clz256(s); }
void w_xormap(const uint64_t* s, uint8_t m, uint64_t* d) { bit_util::xor_map(s, m, d); }
uint64_t w_wmask_all(unsigned k) { static constexpr uint64_t t[] = {bit_util::width_mask<0>, bit_util::width_mask<1>, bit_util::width_mask<8>, bit_util::width_mask<9>, bit_util::width_mask<33>, bit_util::width_mask<63>, bit_util::width_mask<64>}; return t[k]; }
uint64_t w_omask_all(unsigned k) { static constexpr uint64_t t[] = {bit_util::offset_mask<0>, bit_util::offset_mask<1>, bit_util::offset_mask<31>, bit_util::offset_mask<32>, bit_util::offset_mask<63>}; return t[k]; }
}
