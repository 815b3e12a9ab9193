// Extraction unit: entry points into sim_ds/MultipleVector.hpp (no logic of its own).
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/MultipleVector.hpp"
#include <new>
using namespace sim_ds;
using V = MultipleVector;
extern "C" {
size_t w_get(const V* o, size_t i) { return o->nested_element<1>(i); }
size_t w_set(V* o, size_t i, size_t x) { return o->set_nested_element<1>(i, x); }
size_t w_bget(V* o, size_t i) { return o->block(i).get<1>(); }
size_t w_cget(const V* o, size_t i) { return o->block(i).get<1>(); }
uint32_t w_rget(V* o, size_t i) { return o->block(i).restricted_get<1, uint32_t>(); }
uint32_t w_crget(const V* o, size_t i) { return o->block(i).restricted_get<1, uint32_t>(); }
size_t w_bset(V* o, size_t i, size_t x) { return o->block(i).set<1>(x); }
size_t w_getat(V* o, size_t i, size_t f) { return o->block(i).get_at(f); }
void w_setat(V* o, size_t i, size_t f, size_t x) { o->block(i).set_at(f, x); }
void w_assign(V* o, size_t i, size_t x, size_t y) { o->block(i) = {x, y}; }
size_t w_bsize(const V* o) { return o->block_size(); }
size_t w_esize(const V* o, size_t f) { return o->element_size(f); }
size_t w_size(const V* o) { return o->size(); }
void w_resize(V* o, size_t n) { o->resize(n); }
void w_reserve(V* o, size_t n) { o->reserve(n); }
void w_fill(V* o, size_t n, size_t x, size_t y) { o->resize(n, {x, y}); }
void w_eback(V* o) { o->emplace_back(); }
void w_push(V* o, size_t x, size_t y) { o->push_back({x, y}); }
void w_widths(V* o, const std::vector<size_t>* s) { o->set_element_sizes(*s); }
void w_init(V* o, size_t a, size_t b, size_t c) { new (o) V({a, b, c}); }
}
