// Extraction unit: entry points into sim_ds/CHT.hpp (no logic of its own).
#include <functional>
#include <queue>
#include <iostream>
#include <new>
#include "sim_ds/basic.hpp"
#include "sim_ds/CHT.hpp"
using namespace sim_ds; using T = CHT<16, 50>; using Z = CHT<0, 75>;
extern "C" {
#define FN(S, T) \
void w_ctor_##S(T* t, unsigned kb, size_t b) { new (t) T(kb, b); } \
bool w_get_##S(const T* t, uint64_t k, uint64_t* out) { auto p = t->get(k); *out = p.second; return p.first; } \
void w_set_##S(T* t, uint64_t k, uint64_t v) { t->set(k, v); } \
void w_erase_##S(T* t, uint64_t k) { t->erase(k); } \
void w_reserve_##S(T* t, size_t n) { t->reserve(n); } \
size_t w_head_##S(const T* t, size_t i) { return t->ToClusterHead(i); } \
size_t w_succ_##S(const T* t, size_t i) { return t->succ(i); } \
size_t w_pred_##S(const T* t, size_t i) { return t->pred(i); } \
void w_copy_##S(T* t, const T* u) { new (t) T(*u); }
FN(a, T) FN(z, Z)
void w_width_z(Z* t, unsigned w) { t->set_value_width(w); }
}
