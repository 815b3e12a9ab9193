// Extraction unit: entry points into sim_ds/string_util/graph_util.hpp (no logic of its own).
#include <string>
#include <string_view>
#include <vector>
#include <map>
#include <queue>
#include <limits>
#include <cstdint>
#include <new>
#include "sim_ds/basic.hpp"
#include "sim_ds/string_util/graph_util.hpp"
using namespace sim_ds::graph_util; using T = Trie<uint32_t, size_t>; using TI = Trie<uint64_t, int>; using N = T::node_type; using NI = TI::node_type;
extern "C" {
#define FN(S, T, N, I, Z) \
void w_node_##S(N* n) { new (n) N(); } \
bool w_add_##S(N* n, uint8_t c, Z t) { return n->add(c, t); } \
Z w_target_##S(const N* n, uint8_t c) { return n->target(c); } \
bool w_terminal_##S(const N* n) { return n->terminal(); } \
void w_trie_##S(T* t) { new (t) T(); } \
I* w_insert_##S(T* t, const char* k, size_t m, I v) { return t->insert(std::string_view(k, m), v); } \
I* w_traverse_##S(T* t, const char* k, size_t m) { return t->traverse(std::string_view(k, m)); }
FN(z, T, N, uint32_t, size_t) FN(i, TI, NI, uint64_t, int)
}
