// Extraction unit: entry points into sim_ds/FitVector.hpp (no logic of its own).
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/FitVector.hpp"
#include <new>
using namespace sim_ds;
using V = FitVector;
extern "C" {
void w_ctor(V* o, size_t w) { new (o) V(w); }
void w_ctorn(V* o, size_t w, size_t n) { new (o) V(w, n); }
void w_ctorv(V* o, size_t w, size_t n, size_t x) { new (o) V(w, n, x); }
void w_from64(V* o, const std::vector<uint64_t>& a) { new (o) V(a); }
void w_from32(V* o, const std::vector<uint32_t>& a) { new (o) V(a); }
size_t w_get(V* o, size_t i) { return (*o)[i]; }
size_t w_getc(const V* o, size_t i) { return (*o)[i]; }
size_t w_at(V* o, size_t i) { return o->at(i); }
size_t w_atc(const V* o, size_t i) { return o->at(i); }
size_t w_front(const V* o) { return o->front(); }
size_t w_back(const V* o) { return o->back(); }
void w_set(V* o, size_t i, size_t x) { (*o)[i] = x; }
void w_setref(V* o, size_t i, size_t j) { (*o)[i] = (*o)[j]; }
void w_resize(V* o, size_t n) { o->resize(n); }
void w_resizev(V* o, size_t n, size_t x) { o->resize(n, x); }
void w_assign(V* o, size_t n, size_t x) { o->assign(n, x); }
void w_push(V* o, size_t x) { o->push_back(x); }
void w_reserve(V* o, size_t n) { o->reserve(n); }
size_t w_size(const V* o) { return o->size(); }
size_t w_width(const V* o) { return o->unit_width(); }
bool w_empty(const V* o) { return o->empty(); }
}
