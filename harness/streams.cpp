// Extraction unit: writing to and reading from streams (no logic of its own).
#include <functional>
#include <iterator>
#include <algorithm>
#include "sim_ds/basic.hpp"
#include "sim_ds/BitVector.hpp"
#include "sim_ds/SuccinctBitVector.hpp"
#include "sim_ds/FitVector.hpp"
#include "sim_ds/MultiBitVector.hpp"
#include "sim_ds/MultipleVector.hpp"
#include "sim_ds/DacVector.hpp"
#include "sim_ds/WaveletTree.hpp"
#include "sim_ds/string_util/Samc.hpp"
#include <new>
using namespace sim_ds;
using OS = std::ostream; using IS = std::istream;
using Dict = SamcDict<uint8_t>; using Dict16 = SamcDict<uint16_t>; using Aut = Samc<uint8_t>;
template <class T> static void used(const T* a, T* b, OS* os, IS* is) { a->Write(*os); b->Read(*is); }
template <class T> static void made(const T* a, T* b, OS* os, IS* is) { a->Write(*os); new (b) T(*is); }
extern "C" {
void w_bv(const BitVector* a, BitVector* b, OS* os, IS* is) { used(a, b, os, is); }
void w_svt(const SuccinctBitVector<true>* a, SuccinctBitVector<true>* b, OS* os, IS* is) { used(a, b, os, is); }
void w_svf(const SuccinctBitVector<false>* a, SuccinctBitVector<false>* b, OS* os, IS* is) { used(a, b, os, is); }
void w_svt_new(const SuccinctBitVector<true>* a, SuccinctBitVector<true>* b, OS* os, IS* is) { made(a, b, os, is); }
void w_svf_new(const SuccinctBitVector<false>* a, SuccinctBitVector<false>* b, OS* os, IS* is) { made(a, b, os, is); }
void w_fit(const FitVector* a, FitVector* b, OS* os, IS* is) { made(a, b, os, is); }
void w_mb1(const MultiBitVector<1>* a, MultiBitVector<1>* b, OS* os, IS* is) { used(a, b, os, is); }
void w_mb2(const MultiBitVector<2>* a, MultiBitVector<2>* b, OS* os, IS* is) { used(a, b, os, is); }
void w_mb3(const MultiBitVector<3>* a, MultiBitVector<3>* b, OS* os, IS* is) { used(a, b, os, is); }
void w_vec8(const std::vector<uint8_t>* a, std::vector<uint8_t>* b, OS* os, IS* is) { write_vec(*a, *os); read_vec(*is, *b); }
void w_vec16(const std::vector<uint16_t>* a, std::vector<uint16_t>* b, OS* os, IS* is) { write_vec(*a, *os); read_vec(*is, *b); }
void w_vec32(const std::vector<uint32_t>* a, std::vector<uint32_t>* b, OS* os, IS* is) { write_vec(*a, *os); read_vec(*is, *b); }
void w_vec64(const std::vector<uint64_t>* a, std::vector<uint64_t>* b, OS* os, IS* is) { write_vec(*a, *os); read_vec(*is, *b); }
void w_val8(const uint8_t* a, uint8_t* b, OS* os, IS* is) { write_val(*a, *os); *b = read_val<uint8_t>(*is); }
void w_val32(const uint32_t* a, uint32_t* b, OS* os, IS* is) { write_val(*a, *os); *b = read_val<uint32_t>(*is); }
void w_val64(const uint64_t* a, uint64_t* b, OS* os, IS* is) { write_val(*a, *os); *b = read_val<uint64_t>(*is); }
void w_wstr(const std::string* a, OS* os) { write_string(*a, *os); }
void w_rstr(std::string* b, IS* is) { new (b) std::string(read_string(*is)); }
void w_dict(const Dict* a, Dict* b, OS* os, IS* is) { used(a, b, os, is); }
void w_dict16(const Dict16* a, Dict16* b, OS* os, IS* is) { used(a, b, os, is); }
void w_aut(const Aut* a, Aut* b, OS* os, IS* is) { used(a, b, os, is); }
void w_mvstore(const MultipleVector* a, OS* os) { a->StoreTo(*os); }
void w_mvload(MultipleVector* b, IS* is) { b->LoadFrom(*is); }
void w_dacw(const DacVector* a, OS* os) { a->Write(*os); }
void w_dacr(DacVector* b, IS* is) { b->Read(*is); }
void w_dacn(DacVector* b, IS* is) { new (b) DacVector(*is); }
void w_wtw(const WaveletTree* a, OS* os) { a->Write(*os); }
void w_wtr(WaveletTree* b, IS* is) { b->Read(*is); }
}
