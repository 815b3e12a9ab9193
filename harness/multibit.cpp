// Extraction unit: entry points into sim_ds/MultiBitVector.hpp (no logic of its own).
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/MultiBitVector.hpp"
#include <new>
using namespace sim_ds;
#ifndef UNIT
#define UNIT 3
#endif
using V = MultiBitVector<UNIT>;
extern "C" {
void w_ctor(V* o) { new (o) V(); }
uint8_t w_get(const V* o, size_t i) { return (*o)[i]; }
void w_set(V* o, size_t i, uint8_t x) { o->set(i, x); }
void w_resize(V* o, size_t i) { o->resize(i); }
void w_check(V* o, size_t i) { o->ResizeCheck(i); }
void w_build(V* o) { o->build(); }
size_t w_rank(const V* o, size_t i) { return o->rank(i); }
}
