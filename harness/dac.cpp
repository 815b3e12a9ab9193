// Extraction unit: entry points into sim_ds/DacVector.hpp (no logic of its own).
#include <functional>
#include <iterator>
#include <algorithm>
#include "sim_ds/basic.hpp"
#include "sim_ds/DacVector.hpp"
#include <new>
using namespace sim_ds;
using D = DacVector;
extern "C" {
void w_auto64(D* o, const std::vector<uint64_t>* v) { new (o) D(*v); }
void w_auto32(D* o, const std::vector<uint32_t>* v) { new (o) D(*v); }
void w_list64(D* o, const std::vector<uint64_t>* v, const std::vector<size_t>* u) { new (o) D(*v, *u); }
void w_list8(D* o, const std::vector<uint64_t>* v, const std::vector<uint8_t>* u) { new (o) D(*v, *u); }
id_type w_get(const D* o, size_t i) { return (*o)[i]; }
id_type w_at(const D* o, size_t i) { return o->at(i); }
id_type w_front(const D* o) { return o->front(); }
id_type w_back(const D* o) { return o->back(); }
id_type w_iter(const D* o, size_t i) { auto it = o->begin(); it += (long long)i; return *it; }
id_type w_iterat(const D* o, size_t i) { return o->begin()[i]; }
size_t w_span(const D* o) { return o->end() - o->begin(); }
bool w_more(const D* o, size_t i) { auto it = o->begin() + (long long)i; return it != o->end(); }
size_t w_next(const D* o, size_t i) { auto it = o->begin() + (long long)i; ++it; it++; --it; return it - o->begin(); }
size_t w_depth(const D* o, size_t i) { return o->depth(i); }
size_t w_size(const D* o) { return o->size(); }
bool w_empty(const D* o) { return o->empty(); }
}
