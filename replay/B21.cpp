#include "replay.h"
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/string_util/Samc.hpp"
using namespace sim_ds; using rp::Rng;
static std::vector<std::string> keys(Rng& r) { std::set<std::string> s; int n = r.range(r.coin(1, 20) ? 0 : 1, r.coin(1, 5) ? 300 : 25), k = r.coin() ? r.range(1, 4) : r.range(1, 255), mx = r.range(1, r.coin(1, 6) ? 40 : 6); int base = r.coin() ? 1 : r.range(1, 256 - k); int style = r.below(3); std::string pre; while (n--) { std::string x; int l = r.range(1, mx); if (style == 1 && r.coin()) x = pre; while (l--) x += (char)(base + r.below(k)); pre = x.substr(0, r.below(x.size() + 1)); s.insert(x); } return {s.begin(), s.end()}; }
static std::vector<std::string> queries(Rng& r, const std::vector<std::string>& a) { std::vector<std::string> q; q.push_back(""); for (int i = 0; i < 40; i++) { std::string x = a.size() ? a[r.below(a.size())] : "a"; switch (r.below(7)) { case 0: x += (char)r.next(); break; case 1: if (x.size()) x.pop_back(); break; case 2: x[r.below(x.size())] = (char)r.next(); break; case 3: { auto& y = a.size() ? a[r.below(a.size())] : x; x = x.substr(0, r.below(x.size() + 1)) + y.substr(r.below(y.size() + 1)); break; } case 4: x += '\0'; if (r.coin()) x += (char)r.next(); break; case 5: x += std::string(r.below(60), r.coin() ? '\xff' : (char)r.next()); break; default: x.clear(); int l = r.range(1, 8); while (l--) x += (char)r.next(); } q.push_back(x); } return q; }
template <class S> static void member(Rng& r) { auto a = keys(r); std::string d; for (auto& k : a) d += rp::bytes(k, 40) + " "; rp::describe("keys ", d.substr(0, 1200)); S s(a.begin(), a.end()); std::set<std::string> m(a.begin(), a.end()); for (auto& k : a) REQ(s.accept(k), "key rejected ", rp::bytes(k)); for (auto& q : queries(r, a)) REQ(s.accept(q) == (m.count(q) > 0), "query ", rp::bytes(q)); rp::nontrivial += a.size() > 1; }
CASE(samc) { member<Samc<uint32_t>>(r); }
CASE(legacy) { member<Samc<uint32_t, true>>(r); }
CASE(dict) { auto a = keys(r); std::string d; for (auto& k : a) d += rp::bytes(k, 40) + " "; rp::describe("keys ", d.substr(0, 1200)); SamcDict<uint32_t> s(a.begin(), a.end()); std::set<size_t> ids; for (auto& k : a) { auto id = s.lookup(k); REQ(id != s.kSearchError && id < a.size(), "id of ", rp::bytes(k), " is ", id); REQ(ids.insert(id).second, "id used twice ", id); REQ(s.access(id) == k, "access(", id, ") is ", rp::bytes(s.access(id)), " not ", rp::bytes(k)); } for (size_t i = 0; i < a.size(); i++) REQ(s.lookup(s.access(i)) == i, "lookup of key ", i); std::set<std::string> m(a.begin(), a.end()); for (auto& q : queries(r, a)) REQ((s.lookup(q) != s.kSearchError) == (m.count(q) > 0), "query ", rp::bytes(q)); rp::nontrivial += a.size() > 1; }
