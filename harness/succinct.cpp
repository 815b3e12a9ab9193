// Extraction unit: entry points into sim_ds/SuccinctBitVector.hpp (no logic of its own).
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/SuccinctBitVector.hpp"
#include <new>
using namespace sim_ds;
using ST = SuccinctBitVector<true>; using SF = SuccinctBitVector<false>;
extern "C" {
void w_ctorT(ST* o, BitVector* b) { new (o) ST(std::move(*b)); }
void w_ctorF(SF* o, BitVector* b) { new (o) SF(std::move(*b)); }
void w_ctorT_copy(ST* o, const BitVector* b) { new (o) ST(*b); }
void w_ctorT_default(ST* o) { new (o) ST(); }
void w_ctorF_default(SF* o) { new (o) SF(); }
size_t w_rank1T(const ST* o, size_t i) { return o->rank_1(i); }
size_t w_rankT(const ST* o, size_t i) { return o->rank(i); }
size_t w_rank0T(const ST* o, size_t i) { return o->rank_0(i); }
size_t w_rank1F(const SF* o, size_t i) { return o->rank_1(i); }
size_t w_rankF(const SF* o, size_t i) { return o->rank(i); }
size_t w_rank0F(const SF* o, size_t i) { return o->rank_0(i); }
size_t w_selectT(const ST* o, size_t i) { return o->select(i); }
bool w_getT(const ST* o, size_t i) { return (*o)[i]; }
bool w_getF(const SF* o, size_t i) { return (*o)[i]; }
size_t w_sizeT(const ST* o) { return o->size(); }
}
