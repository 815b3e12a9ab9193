// Extraction unit: entry points into sim_ds/Heap.hpp (no logic of its own).
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/Heap.hpp"
#include <new>
using namespace sim_ds;
#ifndef ASC
#define ASC true
#endif
using H = Heap<ASC>;
extern "C" {
void w_ctor0(H* o) { new (o) H(); }
void w_ctor_vec64(H* o, const std::vector<uint64_t>& a) { new (o) H(a); }
void w_ctor_vec32(H* o, const std::vector<uint32_t>& a) { new (o) H(a); }
void w_ctor_range(H* o, const uint64_t* b, const uint64_t* e) { new (o) H(b, e); }
void w_build(H* o) { o->Build(); }
void w_push(H* o, id_type x) { o->push(x); }
void w_pop(H* o) { o->pop(); }
id_type w_front(const H* o) { return o->front(); }
size_t w_root(const H* o) { return o->root(); }
size_t w_size(const H* o) { return o->size(); }
id_type w_value(const H* o, size_t i) { return o->value(i); }
}
void (H::*keep_heapify)(size_t) = &H::Heapify;
