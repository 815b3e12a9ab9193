// Extraction unit: entry points into sim_ds/string_util/Samc.hpp (no logic of its own).
#include <string>
#include <string_view>
#include <vector>
#include <map>
#include <queue>
#include <array>
#include <algorithm>
#include <limits>
#include <cstdint>
#include <new>
#include "sim_ds/basic.hpp"
#include "sim_ds/string_util/Samc.hpp"
using namespace sim_ds; using S = Samc<uint32_t>; using SL = Samc<uint32_t, true>; using D = SamcDict<uint32_t>; using It = const std::string*;
extern "C" {
void w_build_S(S* s, It b, It e) { new (s) S(b, e); }
void w_build_L(SL* s, It b, It e) { new (s) SL(b, e); }
void w_build_D(D* s, It b, It e) { new (s) D(b, e); }
bool w_accept_S(const S* s, const char* k, size_t m) { return s->accept(std::string_view(k, m)); }
bool w_accept_L(const SL* s, const char* k, size_t m) { return s->accept(std::string_view(k, m)); }
size_t w_lookup(const D* s, const char* k, size_t m) { return s->lookup(std::string_view(k, m)); }
std::string w_access(const D* s, size_t v) { return s->access(v); }
}
