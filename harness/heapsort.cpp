// Extraction unit: entry points into sim_ds/sort.hpp (no logic of its own).
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/sort.hpp"
using namespace sim_ds;
extern "C" bool user_less(uint64_t, uint64_t);   // an arbitrary strict weak order supplied by the caller
struct Less { bool operator()(uint64_t a, uint64_t b) const { return user_less(a, b); } };
extern "C" {
void w_sort(uint64_t* b, uint64_t* e) { HeapSort(b, e, Less()); }
void w_sort_def(uint64_t* b, uint64_t* e) { HeapSort(b, e); }
void w_sort_int(int32_t* b, int32_t* e) { HeapSort(b, e); }
}
