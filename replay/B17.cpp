#include "replay.h"
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/BitVector.hpp"
#include "sim_ds/SuccinctBitVector.hpp"
#include "sim_ds/FitVector.hpp"
#include "sim_ds/DacVector.hpp"
#include "sim_ds/MultiBitVector.hpp"
#include "sim_ds/MultipleVector.hpp"
#include "sim_ds/WaveletTree.hpp"
#include "sim_ds/string_util/Samc.hpp"
using namespace sim_ds; using rp::Rng; using SS = std::stringstream;
static const char* TAIL = "\x5a\xa5tail";
// write x, then a marker; read back into target, check that exactly the written bytes were consumed
template <class W, class Rd> static void trip(W w, Rd rd, const char* what, int copies = 1) { SS s; for (int i = 0; i < copies; i++) w(s); auto len = s.str().size(); s.write(TAIL, 6); for (int i = 0; i < copies; i++) { rd(s); REQ(s.good(), what, " stream failed"); REQ((size_t)s.tellg() == len / copies * (i + 1), what, " consumed ", (long long)s.tellg(), " of ", len / copies * (i + 1)); } char b[6]; s.read(b, 6); REQ(s.good() && !memcmp(b, TAIL, 6), what, " tail"); }
static std::vector<bool> bitsv(Rng& r) { size_t n = r.size(2100); std::vector<bool> b(n); int d = r.range(0, 8); for (size_t i = 0; i < n; i++) b[i] = r.coin(d, 8); return b; }
static BitVector bv(const std::vector<bool>& b) { BitVector v(b.size()); for (size_t i = 0; i < b.size(); i++) v[i] = b[i]; return v; }
static void eq(const BitVector& v, const std::vector<bool>& b) { REQ(v.size() == b.size(), "BitVector size"); for (size_t i = 0; i < b.size(); i++) REQ(bool(v[i]) == b[i], "BitVector bit ", i); }
template <class S> static void eqs(const S& v, const std::vector<bool>& b, bool sel) { REQ(v.size() == b.size(), "SuccinctBitVector size"); size_t c = 0; for (size_t i = 0; i < b.size(); i++) { REQ(bool(v[i]) == b[i], "bit ", i); REQ(v.rank(i) == c, "rank ", i); if (b[i]) { if constexpr (S::kUseSelect) if (sel) REQ(v.select(c) == i, "select ", c); c++; } } REQ(v.rank(b.size()) == c, "rank end"); }
CASE(bitvector) { auto a = bitsv(r), o = bitsv(r); rp::describe("BitVector of ", a.size(), " bits into one of ", o.size()); auto v = bv(a); REQ(v.size_in_bytes() > 0, "bytes"); { BitVector t; trip([&](auto& s) { v.Write(s); }, [&](auto& s) { t.Read(s); }, "BitVector"); eq(t, a); t.push_back(true); auto b = a; b.push_back(true); eq(t, b); } { auto t = bv(o); trip([&](auto& s) { v.Write(s); }, [&](auto& s) { t.Read(s); }, "BitVector used", 2); eq(t, a); t.resize(a.size() + 70); auto b = a; b.resize(a.size() + 70); eq(t, b); }  rp::nontrivial += a.size() > 0; }
template <class S> static void succ(Rng& r) { auto a = bitsv(r), o = bitsv(r); rp::describe("SuccinctBitVector of ", a.size(), " bits into one of ", o.size()); S v(bv(a)); { S t; trip([&](auto& s) { v.Write(s); }, [&](auto& s) { t.Read(s); }, "fresh"); eqs(t, a, true); } { S t(bv(o)); trip([&](auto& s) { v.Write(s); }, [&](auto& s) { t.Read(s); }, "used", 2); eqs(t, a, true); } { SS s; v.Write(s); S t(static_cast<std::istream&>(s)); eqs(t, a, true); } { S d; S t(bv(o)); trip([&](auto& s) { d.Write(s); }, [&](auto& s) { t.Read(s); }, "default"); REQ(t.size() == 0, "default size"); } rp::nontrivial += a.size() > 0; }
template <bool B> struct SB : SuccinctBitVector<B> { static constexpr bool kUseSelect = B; using SuccinctBitVector<B>::SuccinctBitVector; };
CASE(succinct_sel) { succ<SB<true>>(r); }
CASE(succinct) { succ<SB<false>>(r); }
static std::vector<uint64_t> ints(Rng& r, int w) { std::vector<uint64_t> a(r.size(400)); for (auto& x : a) x = r.width(w); return a; }
CASE(fit) { int w = r.range(1, 64), w2 = r.range(1, 64); auto a = ints(r, w), o = ints(r, w2); rp::describe("FitVector ", rp::show(a, 100), " into ", o.size()); FitVector v(a); auto eqf = [&](FitVector& t, const std::vector<uint64_t>& a) { REQ(t.size() == a.size(), "size ", t.size()); REQ(t.empty() == a.empty(), "empty"); for (size_t i = 0; i < a.size(); i++) REQ(uint64_t(t[i]) == a[i], "element ", i); }; { FitVector t(3); trip([&](auto& s) { v.Write(s); }, [&](auto& s) { t = FitVector(static_cast<std::istream&>(s)); }, "FitVector"); eqf(t, a); if (a.size()) { t.push_back(1); auto b = a; b.push_back(1); eqf(t, b); } } { FitVector t(o); trip([&](auto& s) { v.Write(s); }, [&](auto& s) { t = FitVector(static_cast<std::istream&>(s)); }, "FitVector used", 2); eqf(t, a); REQ(t.unit_width() == v.unit_width(), "width"); } { SS s; v.Write(s); FitVector t(static_cast<std::istream&>(s)); eqf(t, a); } rp::nontrivial += a.size() > 0; }
CASE(dac) { auto a = ints(r, r.range(1, 64)), o = ints(r, r.range(1, 64)); for (auto& x : a) if (r.coin()) x >>= r.below(64); rp::describe("DacVector ", rp::show(a, 100), " into ", o.size()); DacVector v(a); auto eqd = [&](const DacVector& t) { REQ(t.size() == a.size(), "size ", t.size(), " expected ", a.size()); REQ(t.num_layers() == v.num_layers(), "levels"); for (size_t i = 0; i < a.size(); i++) { REQ(t[i] == a[i], "element ", i); REQ(t.depth(i) == v.depth(i), "depth"); } }; { DacVector t; trip([&](auto& s) { v.Write(s); }, [&](auto& s) { t.Read(s); }, "DacVector"); eqd(t); } { DacVector t(o); trip([&](auto& s) { v.Write(s); }, [&](auto& s) { t.Read(s); }, "DacVector used", 2); eqd(t); } { SS s; v.Write(s); DacVector t(static_cast<std::istream&>(s)); eqd(t); } { a.clear(); v = DacVector(); DacVector t(o); trip([&](auto& s) { v.Write(s); }, [&](auto& s) { t.Read(s); }, "default DacVector"); eqd(t); } rp::nontrivial++; }
template <unsigned U> static void multi(Rng& r) { MultiBitVector<U> v, t; std::vector<uint8_t> a(r.size(900)); for (size_t i = 0; i < a.size(); i++) v.set(i, a[i] = r.below(1 << U)); bool b = r.coin(); if (b) v.build(); if (r.coin()) { for (int i = 0; i < 200; i++) t.set(r.below(500), r.below(1 << U)); t.build(); } rp::describe("MultiBitVector<", U, "> ", rp::show(a, 100)); trip([&](auto& s) { v.Write(s); }, [&](auto& s) { t.Read(s); }, "MultiBitVector", r.range(1, 2)); std::vector<size_t> c(8); for (size_t i = 0; i < a.size(); i++) { REQ(t[i] == a[i], "index ", i); if (b && a[i]) REQ(t.rank(i) == c[a[i]], "rank ", i); c[a[i]]++; } rp::nontrivial += a.size() > 0; }
CASE(multi1) { multi<1>(r); }
CASE(multi2) { multi<2>(r); }
CASE(multi3) { multi<3>(r); }
CASE(records) { auto mk = [&](MultipleVector& v, std::vector<std::array<uint64_t, 2>>& m, std::vector<size_t>& w) { w.resize(r.range(2, 5)); for (auto& x : w) x = r.range(1, 8); v.set_element_sizes(w); m.resize(r.size(200)); v.resize(m.size()); for (size_t i = 0; i < m.size(); i++) { m[i] = {r.width(8 * w[0]), r.width(8 * w[1])}; v.set_nested_element<0>(i, m[i][0]); v.set_nested_element<1>(i, m[i][1]); } };
  MultipleVector v, u, f; std::vector<std::array<uint64_t, 2>> m, mu; std::vector<size_t> w, wu; mk(v, m, w); mk(u, mu, wu); rp::describe("MultipleVector ", m.size(), " records of ", rp::show(w)); auto eqm = [&](MultipleVector& t) { REQ(t.size() == m.size(), "size ", t.size(), " expected ", m.size()); for (size_t k = 0; k < w.size(); k++) REQ(t.element_size(k) == w[k], "width of field ", k); for (size_t i = 0; i < m.size(); i++) { REQ(t.nested_element<0>(i) == m[i][0], "record ", i, " field 0"); REQ(t.nested_element<1>(i) == m[i][1], "record ", i, " field 1"); } }; trip([&](auto& s) { v.StoreTo(s); }, [&](auto& s) { f.LoadFrom(s); }, "MultipleVector"); eqm(f); trip([&](auto& s) { v.StoreTo(s); }, [&](auto& s) { u.LoadFrom(s); }, "MultipleVector used", 2); eqm(u); rp::nontrivial += m.size() > 0; }
CASE(wavelet) { auto mk = [&] { std::vector<uint8_t> a(r.size(400) + 1); int k = r.range(1, 256); for (auto& x : a) x = r.below(k); return a; }; auto a = mk(), o = mk(); rp::describe("WaveletTree ", rp::show(a, 100)); WaveletTree v(a), t(o); trip([&](auto& s) { v.Write(s); }, [&](auto& s) { t.Read(s); }, "WaveletTree", r.range(1, 2)); REQ(t.size() == a.size(), "size"); std::vector<size_t> c(256); for (size_t i = 0; i < a.size(); i++) { REQ(t[i] == a[i], "symbol ", i); REQ(t.rank(i) == c[a[i]], "rank ", i); c[a[i]]++; } rp::nontrivial++; }
static std::vector<std::string> keys(Rng& r) { std::set<std::string> s; int n = r.range(1, 30), k = r.range(1, 255); while (n--) { std::string x; int l = r.range(1, 7); while (l--) x += (char)(1 + r.below(k)); s.insert(x); } return {s.begin(), s.end()}; }
CASE(dict) { auto a = keys(r), o = keys(r); rp::describe("SamcDict of ", a.size(), " keys"); SamcDict<uint32_t> v(a.begin(), a.end()), f, u(o.begin(), o.end()); Samc<uint32_t> x(a.begin(), a.end()), y; auto eqd = [&](SamcDict<uint32_t>& t) { for (auto& k : a) { REQ(t.lookup(k) == v.lookup(k), "id of ", rp::bytes(k)); REQ(t.access(t.lookup(k)) == k, "key"); } for (auto& k : o) REQ(t.lookup(k) == v.lookup(k), "other key ", rp::bytes(k)); }; trip([&](auto& s) { v.Write(s); }, [&](auto& s) { f.Read(s); }, "SamcDict"); eqd(f); trip([&](auto& s) { v.Write(s); }, [&](auto& s) { u.Read(s); }, "SamcDict used", 2); eqd(u); trip([&](auto& s) { x.Write(s); }, [&](auto& s) { y.Read(s); }, "Samc"); for (auto& k : a) REQ(y.accept(k), "accept ", rp::bytes(k)); for (auto& k : o) REQ(y.accept(k) == x.accept(k), "accept other"); rp::nontrivial++; }
CASE(codecs) { std::vector<uint64_t> a = ints(r, 64), b = ints(r, 64); std::vector<uint16_t> c(r.size(100)), d(r.below(5)); for (auto& x : c) x = r.next(); std::string s(r.size(200), 'x'), t; for (auto& x : s) x = r.next(); uint64_t v = r.word(), w = 0; rp::describe("codecs ", a.size(), " ", c.size(), " ", s.size()); aligned_vector<uint64_t> al(a.begin(), a.end()), bl(b.begin(), b.end()); trip([&](auto& o) { write_vec(a, o); }, [&](auto& i) { read_vec(i, b); }, "vector"); REQ(a == b, "vector"); trip([&](auto& o) { write_vec(c, o); }, [&](auto& i) { read_vec(i, d); }, "vector16"); REQ(c == d, "vector16"); trip([&](auto& o) { write_vec(al, o); }, [&](auto& i) { read_vec(i, bl); }, "aligned"); REQ(al == bl, "aligned"); trip([&](auto& o) { write_string(s, o); }, [&](auto& i) { t = read_string(i); }, "string"); REQ(s == t, "string"); trip([&](auto& o) { write_val(v, o); }, [&](auto& i) { w = read_val<uint64_t>(i); }, "value"); REQ(v == w, "value"); rp::nontrivial++; }
