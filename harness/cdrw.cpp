// Extraction unit: entry points into sim_ds/CDRWArray.hpp (no logic of its own).
#include <functional>
#include <array>
#include <queue>
#include "sim_ds/basic.hpp"
#include "sim_ds/CDRWArray.hpp"
#include <new>
using namespace sim_ds;
using A = CDRWArray; using V = CDRWVector;
extern "C" {
void w_new(A* o, size_t n) { new (o) A(n); }
void w_from(A* o, const uint64_t* b, const uint64_t* e) { new (o) A(b, e); }
uint64_t w_get(const A* o, size_t i) { return o->get(i); }
void w_set(A* o, size_t i, uint64_t v) { o->set(i, v); }
size_t w_size(const A* o) { return o->size(); }
void w_vnew(V* o, size_t n) { new (o) V(n); }
uint64_t w_vget(const V* o, size_t i) { return o->get(i); }
void w_vset(V* o, size_t i, uint64_t v) { o->set(i, v); }
size_t w_vsize(const V* o) { return o->size(); }
size_t w_vcap(const V* o) { return o->capacity(); }
bool w_vempty(const V* o) { return o->empty(); }
void w_vresize(V* o, size_t n) { o->resize(n); }
void w_vreserve(V* o, size_t n) { o->reserve(n); }
void w_vshrink(V* o) { o->shrink_to_fit(); }
void w_vpush(V* o, uint64_t v) { o->push_back(v); }
void w_vpop(V* o) { o->pop_back(); }
void w_vclear(V* o) { o->clear(); }
}
