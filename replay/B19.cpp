#include "replay.h"
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/string_util/FactorOracle.hpp"
using namespace sim_ds; using rp::Rng;
static std::string text(Rng& r, size_t mx) { int k = r.coin() ? r.range(1, 4) : r.range(1, 256), hi = r.coin() ? 0 : r.below(257 - k); size_t n = r.size(mx); std::string t; if (r.coin(1, 4)) { std::string u; int l = r.range(1, 5); while (l--) u += (char)(hi + r.below(k)); while (t.size() < n) t += u; } else while (t.size() < n) t += (char)(hi + r.below(k)); return t; }
CASE(factors) { auto t = text(r, r.coin(1, 6) ? 900 : 120); rp::describe("text ", rp::bytes(t, 200)); FactorOracle o = r.coin() ? FactorOracle(t) : FactorOracle(t.begin(), t.end()); REQ(o.accept(std::string_view("")), "empty string"); REQ(o.accept(t), "whole text");
  for (int i = 0; i < 40 && t.size(); i++) { size_t b = r.below(t.size()), l = r.below(t.size() - b + 1); auto s = t.substr(b, l); REQ(o.accept(s), "factor ", rp::bytes(s)); } if (t.size() <= 40) for (size_t b = 0; b < t.size(); b++) REQ(o.accept(std::string_view(t).substr(b)), "suffix ", b);
  for (int i = 0; i < 20; i++) { auto q = t + text(r, 3); if (q.size() > t.size()) REQ(!o.accept(q), "longer than the text"); auto x = text(r, 60); bool a = o.accept(x); if (x.size() > t.size()) REQ(!a, "longer than the text: ", rp::bytes(x)); if (t.find(x) != std::string::npos) REQ(a, "factor ", rp::bytes(x)); } for (int c = 0; c < 256; c++) { std::string q = t + (char)c; REQ(!o.accept(q), "text plus byte ", c); std::string s(1, (char)c); bool in = t.find((char)c) != std::string::npos; REQ(o.accept(s) == in, "single byte ", c); } rp::nontrivial += t.size() > 1; }
CASE(explore) { auto t = text(r, 80), x = text(r, 40); if (t.size() && r.coin()) { size_t b = r.below(t.size()); x = t.substr(b, r.below(20)) + x; } rp::describe("text ", rp::bytes(t, 100), " query ", rp::bytes(x)); FactorOracle o(t); FactorOracle::Exproler e(x); bool a = o.accept(e); REQ(e.pos() <= x.size(), "position"); REQ(a == (e.pos() == x.size()), "position and verdict"); REQ(a == o.accept(std::string_view(x)), "both forms agree"); for (size_t l = 0; l <= x.size(); l++) REQ(o.accept(std::string_view(x).substr(0, l)) == (l <= e.pos()), "prefix ", l); }
