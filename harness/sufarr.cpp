// Extraction unit: entry points into sim_ds/string_util/SuffixArray.hpp (no logic of its own).
#include <new>
#include <string>
#include "sim_ds/basic.hpp"
#include "sim_ds/string_util/SuffixArray.hpp"
using namespace sim_ds;
extern "C" void w_sa(SuffixArray* o, const std::string& s) { new (o) SuffixArray(s); }
