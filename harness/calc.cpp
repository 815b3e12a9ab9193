// Extraction unit: entry points into sim_ds/calc.hpp (no logic of its own).
#include <functional>
#include <algorithm>
#include "sim_ds/basic.hpp"
#include "sim_ds/calc.hpp"
using namespace sim_ds;
using V = std::vector<uint64_t>;
extern "C" {
size_t w_units(unsigned long long v, size_t u) { return calc::SizeFitsInUnits(v, u); }
size_t w_bits(unsigned long long v) { return calc::SizeFitsInBits(v); }
size_t w_bytes(unsigned long long v) { return calc::SizeFitsInBytes(v); }
size_t w_fits4(unsigned long long v) { return calc::size_fits<4>(v); }
size_t w_list(unsigned long long v, const V& s) { return calc::SizeFitsAsList(v, s); }
void w_freq(const V& a, std::vector<size_t>* r) { calc::bit_length_frequencies(a, r); }
void w_cum(const V& a, std::vector<size_t>* r) { calc::cummulative_frequency_list(a, r); }
void w_split(const V& a, std::vector<size_t>* r, size_t lv) { calc::split_positions_optimized_for_dac(a, r, lv); }
}
