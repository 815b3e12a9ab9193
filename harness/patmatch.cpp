// Extraction unit: entry points into sim_ds/string_util/PatternMatching.hpp (no logic of its own).
#include <new>
#include "sim_ds/basic.hpp"
#include "sim_ds/string_util/PatternMatching.hpp"
using namespace sim_ds; namespace pm = sim_ds::pattern_matching; using V = std::vector<size_t>; using SV = std::string_view;
extern "C" {
#define ALG(N, T) \
void w_##N##_new(pm::T* o, const char* k, size_t m) { new (o) pm::T(SV(k, m)); } \
void w_##N##_find(V* r, const pm::T* o, const char* t, size_t n) { new (r) V(o->pm::T::find_all(SV(t, n))); }
ALG(simple, Simple) ALG(kmp, Kmp) ALG(bm, Bm) ALG(bom, Bom) ALG(turbo, TurboBom) ALG(qs, SundayQS) ALG(ms, SundayMS)
#define FN(N, F) void w_##N(V* r, const char* t, size_t n, const char* k, size_t m) { new (r) V(pm::F(SV(t, n), SV(k, m))); }
FN(simple, PatternMatchSimple) FN(kmp, PatternMatchKMP) FN(bm, PatternMatchBM) FN(bom, PatternMatchBOM) FN(turbo, PatternMatchTurboBOM) FN(qs, PatternMatchSundayQS) FN(ms, PatternMatchSundayMS)
size_t w_sz(int k) { return k == 0 ? sizeof(pm::Kmp) : k == 1 ? sizeof(pm::Bm) : k == 2 ? sizeof(pm::Bom) : k == 3 ? sizeof(pm::TurboBom) : k == 4 ? sizeof(pm::Sunday) : k == 5 ? sizeof(pm::SundayQS) : sizeof(pm::SundayMS); }
}
