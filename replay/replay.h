// Concrete replay / bounded-search support.  Each harness registers cases; cases run round-robin from a seed until the
// time budget ends.  Argument 3 ("name iter seed") re-runs exactly one case.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <chrono>
#include <sstream>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
namespace rp {
struct Rng {
  uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; i++) next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t operator()() { return next(); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
  bool coin(int num = 1, int den = 2) { return below(den) < (uint64_t)num; }
  // integers of interesting shape: few bits, dense, near powers of two, uniform
  uint64_t word() {
    switch (below(9)) {
      case 0: return 0; case 1: return ~0ull; case 2: return 1ull << below(64); case 3: return ~(1ull << below(64));
      case 4: return next() & next() & next(); case 5: return next() | next() | next(); case 6: return next() >> below(64); case 7: { uint64_t k = 1ull << below(64); return k - 1 + below(3); }
      default: return next(); }
  }
  uint64_t width(int w) { uint64_t m = w >= 64 ? ~0ull : (1ull << w) - 1; switch (below(5)) { case 0: return 0; case 1: return m; case 2: return word() & m; case 3: return m >> below(w ? w : 1); default: return next() & m; } }
  // sizes that hit block boundaries
  uint64_t size(uint64_t mx) { static const uint64_t b[] = {0,1,2,3,7,8,9,31,32,33,63,64,65,127,128,129,255,256,257,511,512,513,575,576,640,1023,1024,1025,1535,1536,1537,2048,4095,4096,4097};
    if (coin(1,2)) { uint64_t v = b[below(sizeof b / sizeof *b)]; if (v <= mx) return v; } if (coin(1,2)) return below(std::min<uint64_t>(mx, 40) + 1); return below(mx + 1); }
};
struct Case { const char* name; void (*fn)(Rng&); };
inline std::vector<Case>& cases() { static std::vector<Case> c; return c; }
struct Reg { Reg(const char* n, void (*f)(Rng&)) { cases().push_back({n, f}); } };
inline char* status() { static char* p = nullptr; static char dummy[512]; if (!p) { const char* f = getenv("REPLAY_STATUS"); p = dummy;
    if (f) { int fd = open(f, O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd >= 0 && ftruncate(fd, 512) == 0) { void* q = mmap(nullptr, 512, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (q != MAP_FAILED) p = (char*)q; close(fd); } } } return p; }
inline uint64_t nontrivial = 0;
inline std::string& desc() { static std::string d; return d; }
template <class... A> void describe(const A&... a) { std::ostringstream o; (void)std::initializer_list<int>{((o << a), 0)...}; desc() = o.str(); }
template <class V> std::string show(const V& v, size_t mx = 40) { std::ostringstream o; o << "["; size_t n = 0; for (auto x : v) { if (n++) o << ","; if (n > mx) { o << "..."; break; } o << +x; } o << "] (" << v.size() << ")"; return o.str(); }
inline std::string bytes(const std::string& s, size_t mx = 80) { std::string o = "\""; char b[8]; for (size_t i = 0; i < s.size() && i < mx; i++) { unsigned char c = s[i]; if (c >= 32 && c < 127 && c != '"' && c != '\\') o += c; else { snprintf(b, 8, "\\x%02x", c); o += b; } } o += "\""; if (s.size() > mx) o += "..."; return o; }
template <class... A> [[noreturn]] void fail(const A&... a) { std::ostringstream o; (void)std::initializer_list<int>{((o << a), 0)...}; printf("FAIL %s\n  input: %s\n  case: %s\n", o.str().c_str(), desc().c_str(), status()); fflush(stdout); _exit(1); }
}
#define CASE(n) static void case_##n(rp::Rng& r); static rp::Reg reg_##n(#n, case_##n); static void case_##n(rp::Rng& r)
#define REQ(c, ...) do { if (!(c)) rp::fail(#c, " : ", __VA_ARGS__); } while (0)
int main(int argc, char** argv) {
  uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1; double secs = argc > 2 ? atof(argv[2]) : 2; auto& cs = rp::cases();
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (argc > 3) { char n[256]; unsigned long long it, sd; if (sscanf(argv[3], "%200s %llu %llu", n, &it, &sd) != 3) return 3;
    for (auto& c : cs) if (!strcmp(c.name, n)) { strcpy(rp::status(), argv[3]); rp::Rng r(sd ^ (it * 1315423911u) ^ std::hash<std::string>()(n)); c.fn(r); printf("input: %s\n", rp::desc().c_str()); puts("case passed"); } return 0; }
  auto t0 = std::chrono::steady_clock::now(); uint64_t total = 0, samples = 0;
  for (uint64_t it = 0;; it++) {
    for (auto& c : cs) {
      snprintf(rp::status(), 500, "%s %llu %llu", c.name, (unsigned long long)it, (unsigned long long)seed);
      rp::Rng r(seed ^ (it * 1315423911u) ^ std::hash<std::string>()(c.name)); c.fn(r); total++;
      if (it == 1 && samples < 12) { samples++; printf("SAMPLE %s: %.300s\n", c.name, rp::desc().c_str()); }
    }
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
  }
  printf("DONE cases=%llu nontrivial=%llu\n", (unsigned long long)total, (unsigned long long)rp::nontrivial); return 0; }
