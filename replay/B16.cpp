#include "replay.h"
#include <functional>
#include "sim_ds/basic.hpp"
#include "sim_ds/InitializableArray.hpp"
#include <new>
using namespace sim_ds; using rp::Rng;
static std::string lg; static void L(const std::string& s) { lg += s + "; "; rp::describe(lg.size() > 2000 ? lg.substr(0, 80) + "..." + lg.substr(lg.size() - 1900) : lg); }
template <class... A> static std::string S(const A&... a) { std::ostringstream o; (void)std::initializer_list<int>{((o << a), 0)...}; return o.str(); }
template <class T, class A> static void hist(Rng& r, A& a, size_t n, T init, std::function<T()> val) { std::vector<T> m(n, init); auto same = [&](const char* w) { for (size_t i = 0; i < n; i++) REQ(a.get(i) == m[i], w, " index ", i, " got ", +a.get(i), " expected ", +m[i]); }; same("start"); int ops = r.range(1, 60); while (ops--) { if (r.coin(1, 15)) { T v = val(); L(S("fill(", +v, ")")); if (r.coin()) a.fill(v); else a.init(v); std::fill(m.begin(), m.end(), v); } else if (n) { size_t i = r.below(n); T v = val(); L(S("[", i, "]=", +v)); a.set(i, v); m[i] = v; REQ(a.get(i) == v, "just written ", i); } if (r.coin(1, 2)) same("after last operation"); } same("end"); rp::nontrivial += n > 1; }
template <class T, size_t N> static void inplace(Rng& r) { using A = InitializableArray<T, N>; lg.clear(); alignas(A) static unsigned char mem[sizeof(A)]; int g = r.below(4); for (auto& b : mem) b = g == 0 ? 0 : g == 1 ? r.next() : g == 2 ? r.below(4) : 0xff; auto val = [&]() -> T { if (r.coin(1, 3)) return (T)r.below(N + 2); if (r.coin(1, 3)) return (T)(2 * r.below(N / 2 + 1)); return (T)r.word(); };
  // stale memory that looks like valid chains
  if (r.coin()) { T* p = reinterpret_cast<T*>(mem + sizeof(A) - A::kActualSize * sizeof(T)); size_t nb = A::kActualSize / 2; auto put = [&](size_t i, size_t b) { memcpy(p + i, &b, sizeof(T)); }; for (int k = 0; k < 8; k++) { size_t x = r.below(nb), y = r.below(nb); put(2 * x, 2 * y); put(2 * y, 2 * x); } for (int k = 0; k < 3; k++) { size_t x = r.below(nb); put(2 * x, r.below(2 * N)); } }
  T init = val(); L(S("InitializableArray<", sizeof(T), " bytes,", N, ">(", +init, ") garbage ", g)); A* a = new (mem) A(init); REQ(a->size() == N, "size"); hist<T>(r, *a, N, init, val);
  const A& c = *a; for (size_t i = 0; i < N; i++) { REQ(T(c[i]) == a->get(i), "const operator[]"); T v = val(); (*a)[i] = v; REQ(a->get(i) == v && T((*a)[i]) == v, "operator[] write"); } }
template <class T> static void folk(Rng& r) { lg.clear(); size_t n = r.size(60); auto val = [&]() -> T { return (T)r.word(); }; T init = val(); L(S("Folklore(", n, ",", +init, ")")); InitializableArrayFolklore<T> a(n, init); REQ(a.size() == n, "size"); hist<T>(r, a, n, init, val); std::vector<T> s(n); for (auto& x : s) x = val(); InitializableArrayFolklore<T> b(s.begin(), s.end()); for (size_t i = 0; i < n; i++) REQ(b.get(i) == s[i], "from range"); }
CASE(f64) { folk<uint64_t>(r); }
CASE(f8) { folk<uint8_t>(r); }
CASE(i64_1) { inplace<int64_t, 1>(r); }
CASE(i64_2) { inplace<int64_t, 2>(r); }
CASE(i64_7) { inplace<int64_t, 7>(r); }
CASE(i64_16) { inplace<int64_t, 16>(r); }
CASE(i64_33) { inplace<int64_t, 33>(r); }
CASE(i32_12) { inplace<int, 12>(r); }
CASE(i32_40) { inplace<uint32_t, 40>(r); }
CASE(i16_30) { inplace<uint16_t, 30>(r); }
CASE(i8_20) { inplace<uint8_t, 20>(r); }
CASE(i8_200) { inplace<uint8_t, 200>(r); }
CASE(dbl) { inplace<double, 20>(r); }
CASE(flt) { inplace<float, 21>(r); }
