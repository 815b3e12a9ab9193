// Extraction unit: entry points into sim_ds/InitializableArray.hpp (no logic of its own).
#include <new>
#include <iostream>
#include <cstring>
#include "sim_ds/basic.hpp"
#include "sim_ds/InitializableArray.hpp"
using namespace sim_ds;
extern "C" {
#define FOLK(N, T) \
using F##N = InitializableArrayFolklore<T>; \
void w_##N##_new(F##N* o, size_t n, T v) { new (o) F##N(n, v); } \
void w_##N##_from(F##N* o, const T* b, const T* e) { new (o) F##N(b, e); } \
T w_##N##_get(const F##N* o, size_t i) { return o->get(i); } \
void w_##N##_set(F##N* o, size_t i, T v) { o->set(i, v); } \
void w_##N##_init(F##N* o, T v) { o->init(v); } \
void w_##N##_fill(F##N* o, T v) { o->fill(v); } \
size_t w_##N##_size(const F##N* o) { return o->size(); }
FOLK(f8, uint8_t) FOLK(f32, uint32_t) FOLK(f64, uint64_t)
#define INPL(N, T, S) \
using I##N = InitializableArray<T, S>; \
void w_##N##_new(I##N* o, T v) { new (o) I##N(v); } \
T w_##N##_get(const I##N* o, size_t i) { return o->get(i); } \
void w_##N##_set(I##N* o, size_t i, T v) { o->set(i, v); } \
T w_##N##_at(const I##N* o, size_t i) { return (*o)[i]; } \
T w_##N##_ref(I##N* o, size_t i) { return (*o)[i]; } \
void w_##N##_put(I##N* o, size_t i, T v) { (*o)[i] = v; } \
void w_##N##_init(I##N* o, T v) { o->init(v); } \
void w_##N##_fill(I##N* o, T v) { o->fill(v); } \
size_t w_##N##_size(const I##N* o) { return o->size(); }
INPL(i8, uint8_t, 256) INPL(i8o, uint8_t, 77) INPL(i16, uint16_t, 5000) INPL(i32, uint32_t, 1001) INPL(i1, uint16_t, 1)
}
