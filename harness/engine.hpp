// Property-based testing engine: a case is a pure function of a sequence of bounded choices.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <sstream>

struct Fail { std::string sig, msg; };

// Source of choices. In generation mode values come from a PRNG seeded by (seed, case index);
// in replay mode from a recorded sequence (exhausted => 0, the simplest choice).
class Src {
public:
  bool gen = true;
  uint64_t s = 0;
  const uint32_t* in = nullptr; size_t nin = 0, pos = 0;
  uint32_t* out = nullptr; volatile uint32_t* nout = nullptr; size_t capout = 0;
  std::string* trace = nullptr;         // non-null: pretty trace wanted
  uint64_t hash = 1469598103934665603ull; // hash of drawn values
  bool nontrivial = false;
  size_t ndrawn = 0;
  bool exhausted() const { return !gen && pos >= nin; }
  uint64_t next64() {
    s += 0x9E3779B97F4A7C15ull; uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // uniform in [0,n), 0 = simplest
  uint32_t draw(uint32_t n) {
    if (n <= 1) return 0;
    uint32_t v;
    if (gen) v = (uint32_t)(next64() % n);
    else { v = pos < nin ? in[pos] : 0; pos++; if (v >= n) v = n - 1; }
    if (out && *nout < capout) { out[*nout] = v; *nout = *nout + 1; }
    ndrawn++;
    hash = (hash ^ (v + 0x9E37u)) * 1099511628211ull;
    return v;
  }
  int range(int lo, int hi) { return lo + (int)draw((uint32_t)(hi - lo + 1)); }
  bool chance(int num, int den) { return (int)draw(den) >= den - num; } // false is simplest
  bool coin() { return draw(2) == 1; }
  // weighted choice; index 0 simplest
  int weighted(std::initializer_list<int> w) {
    int t = 0; for (int x : w) t += x;
    int v = (int)draw(t), i = 0;
    for (int x : w) { if (v < x) return i; v -= x; i++; }
    return 0;
  }
  template<class T> const T& pick(const std::vector<T>& v) { return v[draw((uint32_t)v.size())]; }
};

[[noreturn]] void fail(const std::string& sig, const std::string& msg);
void label(const std::string& l);             // classify the running case
extern Src* CUR;                              // the running case's source
#define TRACING (CUR && CUR->trace)
#define TR(expr) do { if (TRACING) { std::ostringstream _o; _o << expr; CUR->trace->append(_o.str()); CUR->trace->push_back('\n'); } \
    if (getenv_trace()) { std::ostringstream _o; _o << expr; fprintf(stderr, "%s\n", _o.str().c_str()); } } while (0)
#define TRON (TRACING || getenv_trace())
bool getenv_trace();
void crumb(const char* what);                 // where we are: used in crash/hang signatures

typedef std::function<void(Src&)> CaseFn;
struct Known { std::string prop, key, what; std::function<bool()> still; };
struct Prop {
  std::string id;
  std::string rule;            // generation rule + what is non-trivial
  CaseFn fn;
  long quick, thorough;        // number of cases
  std::vector<std::string> assumptions;
  int cpu_limit = 20;          // seconds of CPU for one case before it counts as a hang
  size_t mem_mb = 3000;        // address space limit (0 = none)
  std::string level = "exploration";
  std::function<void()> init;  // in each worker, before cases
};
// known findings: shown as KNOWN-FINDING when still() confirms them in a forked child
void add_known(const std::string& prop, const std::string& what, std::function<bool()> still);
int engine_main(int argc, char** argv, const std::vector<Prop>& props);
