// Extraction unit: entry points into sim_ds/WaveletTree.hpp (no logic of its own).
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/WaveletTree.hpp"
#include <new>
using namespace sim_ds;
using T = WaveletTree;
extern "C" {
void w_ctor8(T* o, const std::vector<uint8_t>* v) { new (o) T(*v); }
void w_ctor32(T* o, const std::vector<int>* v) { new (o) T(*v); }
void w_ctor64(T* o, const std::vector<uint64_t>* v) { new (o) T(*v); }
uint8_t w_get(const T* o, size_t i) { return (*o)[i]; }
size_t w_rank1(const T* o, size_t i) { return o->rank(i); }
size_t w_rank2(const T* o, uint8_t c, size_t i) { return o->rank(c, i); }
unsigned long long w_both(const T* o, size_t i, uint8_t* v) { auto p = o->AccessAndRank(i); *v = p.first; return p.second; }
size_t w_size(const T* o) { return o->size(); }
}
