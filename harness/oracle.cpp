// Extraction unit: entry points into sim_ds/string_util/FactorOracle.hpp (no logic of its own).
#include "sim_ds/basic.hpp"
#include "sim_ds/string_util/FactorOracle.hpp"
using namespace sim_ds;
using FB = FactorOracleBaseCTAFOBuilder<uint32_t>;
template class sim_ds::FactorOracleBaseCTAFOBuilder<uint32_t>;
extern "C" {
bool w_image(const FactorOracle* o, size_t* s, uint8_t c) { return o->image(*s, c); }
bool w_explore(const FactorOracle* o, FactorOracle::Exproler* e) { return o->accept(*e); }
bool w_accept(const FactorOracle* o, const char* s, size_t n) { return o->accept(std::string_view(s, n)); }
void w_build(FB* b, const char* s, size_t n) { new (b) FB(std::string_view(s, n)); }
void w_build_range(FB* b, const char* s, const char* e) { new (b) FB(s, e); }
void w_oracle(FactorOracle* o, const char* s, const char* e) { new (o) FactorOracle(s, e); }
}
