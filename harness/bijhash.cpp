// Extraction unit: entry points into sim_ds/BijectiveHash.hpp (no logic of its own).
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/BijectiveHash.hpp"
using namespace sim_ds;
extern "C" {
#define STEP(K) \
uint64_t w_xs##K(unsigned w, uint64_t x) { Xorshift h(w); return h.hash<K>(x); } \
uint64_t w_xs_hi##K(unsigned w, uint64_t x) { Xorshift h(w); return h.hash<K>(h.ihash<K>(x)); } \
uint64_t w_xs_ih##K(unsigned w, uint64_t x) { Xorshift h(w); return h.ihash<K>(h.hash<K>(x)); } \
uint64_t w_mul##K(unsigned w, uint64_t x) { MultiplyHash h(w); return h.hash<K>(x); } \
uint64_t w_imul##K(unsigned w, uint64_t x) { MultiplyHash h(w); return h.ihash<K>(x); } \
uint64_t w_mul_hi##K(unsigned w, uint64_t x) { MultiplyHash h(w); return h.hash<K>(h.ihash<K>(x)); } \
uint64_t w_mul_ih##K(unsigned w, uint64_t x) { MultiplyHash h(w); return h.ihash<K>(h.hash<K>(x)); }
STEP(0) STEP(1) STEP(2)
uint64_t w_split(unsigned w, uint64_t x) { SplitMixHash h(w); return h.hash(x); }
uint64_t w_isplit(unsigned w, uint64_t x) { SplitMixHash h(w); return h.ihash(x); }
uint64_t w_split_hi(unsigned w, uint64_t x) { SplitMixHash h(w); return h.hash(h.ihash(x)); }
uint64_t w_split_ih(unsigned w, uint64_t x) { SplitMixHash h(w); return h.ihash(h.hash(x)); }
#define DEF(T, N, H) \
uint64_t w_##N##_def_hi(uint64_t x) { T h; return h.H(h.i##H(x)); } \
uint64_t w_##N##_def_ih(uint64_t x) { T h; return h.i##H(h.H(x)); }
DEF(Xorshift, xs, hash<0>) DEF(MultiplyHash, mul, hash<0>) DEF(SplitMixHash, split, hash)
}
