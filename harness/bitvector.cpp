// Extraction unit: entry points into sim_ds/BitVector.hpp (no logic of its own).
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/BitVector.hpp"
#include <new>
using namespace sim_ds;
using It = BitVector::iterator; using CIt = BitVector::const_iterator;
extern "C" {
void w_ctor0(BitVector* o) { new (o) BitVector(); }
void w_ctor(BitVector* o, size_t n) { new (o) BitVector(n); }
void w_ctorb(BitVector* o, size_t n, bool b) { new (o) BitVector(n, b); }
void w_ctor_arr(BitVector* o, const std::vector<uint8_t>& a) { new (o) BitVector(a); }
void w_ctor_il(BitVector* o, std::initializer_list<bool> a) { new (o) BitVector(a); }
bool w_get(BitVector* o, size_t i) { return (*o)[i]; }
bool w_getc(const BitVector* o, size_t i) { return (*o)[i]; }
bool w_at(const BitVector* o, size_t i) { return o->at(i); }
bool w_atm(BitVector* o, size_t i) { return o->at(i); }
bool w_front(const BitVector* o) { return o->front(); }
bool w_back(const BitVector* o) { return o->back(); }
void w_set(BitVector* o, size_t i, bool b) { (*o)[i] = b; }
void w_setref(BitVector* o, size_t i, size_t j) { (*o)[i] = (*o)[j]; }
void w_push(BitVector* o, bool b) { o->push_back(b); }
void w_resize(BitVector* o, size_t n) { o->resize(n); }
void w_resizeb(BitVector* o, size_t n, bool b) { o->resize(n, b); }
void w_assign(BitVector* o, size_t n, bool b) { o->assign(n, b); }
void w_reserve(BitVector* o, size_t n) { o->reserve(n); }
void w_shrink(BitVector* o) { o->shrink_to_fit(); }
size_t w_size(const BitVector* o) { return o->size(); }
bool w_empty(const BitVector* o) { return o->empty(); }
void w_fill(BitVector* o, size_t i, size_t j, bool b) { o->fill(o->begin() + i, o->begin() + j, b); }
bool w_it_add(BitVector* o, size_t i, ptrdiff_t d) { It x = o->begin() + i; x += d; return *x; }
bool w_it_sub(BitVector* o, size_t i, ptrdiff_t d) { It x = o->begin() + i; x -= d; return *x; }
bool w_it_addop(const BitVector* o, size_t i, size_t d) { CIt x = o->begin() + i; return *(x + d); }
bool w_it_subop(const BitVector* o, size_t i, size_t d) { CIt x = o->begin() + i; return *(x - d); }
bool w_it_idx(BitVector* o, size_t i, ptrdiff_t d) { It x = o->begin() + i; return x[d]; }
bool w_it_inc(BitVector* o, size_t i) { It x = o->begin() + i; ++x; return *x; }
bool w_it_dec(BitVector* o, size_t i) { It x = o->begin() + i; --x; return *x; }
bool w_it_enddec(const BitVector* o) { CIt x = o->end(); --x; return *x; }
void w_it_write(BitVector* o, size_t i, bool b) { It x = o->begin() + i; *x = b; }
ptrdiff_t w_it_diff(BitVector* o, size_t i, size_t j) { return (o->begin() + i) - (o->begin() + j); }
ptrdiff_t w_it_len(const BitVector* o) { return o->end() - o->begin(); }
bool w_it_eq(BitVector* o, size_t i, size_t j) { return (o->begin() + i) == (o->begin() + j); }
bool w_it_ne(BitVector* o, size_t i, size_t j) { return (o->begin() + i) != (o->begin() + j); }
bool w_it_lt(BitVector* o, size_t i, size_t j) { return (o->begin() + i) < (o->begin() + j); }
bool w_it_le(BitVector* o, size_t i, size_t j) { return (o->begin() + i) <= (o->begin() + j); }
bool w_it_gt(BitVector* o, size_t i, size_t j) { return (o->begin() + i) > (o->begin() + j); }
bool w_it_ge(BitVector* o, size_t i, size_t j) { return (o->begin() + i) >= (o->begin() + j); }
}
