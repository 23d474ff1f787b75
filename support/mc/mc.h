// mc.h - a small stateless model checker for sequential code.
//
// A scenario is a nondeterministic program: an ordinary function which asks
// `c.choose(n)` whenever its environment has n possibilities (which operation
// comes next, which input value, which fault, which shape).  The engine runs
// the scenario once for EVERY sequence of choices, depth first, by replaying
// the prefix and flipping the last choice (no sampling).  The code inside the
// scenario is the real albatross code; the assertion on every execution is
// the property.
//
// Executions are sharded over worker processes; a crash, an abort or a hang of
// an execution is attributed to its exact choice sequence and reported as a
// violation, and exploration resumes behind it.  Every violation is a choice
// sequence which `--replay FILE` re-executes.
#ifndef VERIF_MC_H
#define VERIF_MC_H

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Failed {
  std::string key, msg;
};
struct Pruned {};

inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char ch : s) {
    h ^= ch;
    h *= 1099511628211ull;
  }
  return h;
}

class Ctx {
public:
  // One of n possibilities; all of them are explored.
  int choose(int n);
  bool flip() { return choose(2) == 1; }
  template <typename T> const T &pick(const std::vector<T> &v) {
    return v[static_cast<std::size_t>(choose(static_cast<int>(v.size())))];
  }
  template <typename T> T pick(std::initializer_list<T> v) {
    return *(v.begin() + choose(static_cast<int>(v.size())));
  }
  // All integers in [lo, hi].
  int range(int lo, int hi) { return lo + choose(hi - lo + 1); }
  // Every subset of {0..n-1}.
  std::vector<std::size_t> subset(std::size_t n);
  // Every permutation of {0..n-1}.
  std::vector<std::size_t> permutation(std::size_t n);

  // Abandon this execution (an assumption does not hold).
  void assume(bool b) {
    if (!b)
      throw Pruned();
  }

  // Record the canonical form of a state reached (distinct ones are counted).
  void state(const std::string &s);
  void step(std::size_t n = 1) { steps += n; }
  // The narrative of this execution (kept for samples and replays).
  template <typename T> Ctx &operator<<(const T &x) {
    if (narrate) {
      std::ostringstream os;
      os.precision(17);
      os << x;
      text += os.str();
    }
    return *this;
  }

  [[noreturn]] void fail(const std::string &key, const std::string &msg) {
    throw Failed{key, msg};
  }
  // Report without abandoning the execution.
  void report(const std::string &key, const std::string &msg);
  void check(bool ok, const char *key, const std::string &msg = "") {
    ++checks;
    if (!ok)
      report(key, msg);
  }
  // Equality within tolerance (NaN equals NaN, inf equals inf of the sign).
  void close(double got, double want, const char *key,
             const std::string &what = "", double rtol = 1e-9,
             double atol = 1e-11);

  // engine
  std::vector<std::pair<int, int>> choices; // value, arity
  std::size_t pos = 0;
  std::string text;
  bool narrate = false;
  std::size_t steps = 0, checks = 0;
  std::string scenario;
  // sharding
  std::size_t shard = 0, n_shards = 1;
  uint64_t prefix_product = 1, prefix_index = 0;
  bool prefix_done = false;
};

inline bool near(double got, double want, double rtol = 1e-9,
                 double atol = 1e-11) {
  if (std::isnan(got) || std::isnan(want))
    return std::isnan(got) && std::isnan(want);
  if (std::isinf(got) || std::isinf(want))
    return got == want;
  return std::fabs(got - want) <= atol + rtol * std::max(std::fabs(got), std::fabs(want));
}

using Body = std::function<void(Ctx &)>;
enum Tier { BOTH, QUICK_ONLY, THOROUGH_ONLY };
struct Register {
  Register(const std::string &name, Body body, Tier tier = BOTH);
};

// Is this the thorough tier? (bounds may depend on it)
bool thorough();
template <typename T> T tiered(T quick, T deep) {
  return thorough() ? deep : quick;
}

// Runs f in a forked child; returns true if the child died (abort, assertion)
// or false if it finished.  Used where the property IS "the call refuses".
bool dies(const std::function<void()> &f);

#define MC_CAT_(a, b) a##b
#define MC_CAT(a, b) MC_CAT_(a, b)
#define MC_SCENARIO(name)                                                      \
  static void mc_body_##name(mc::Ctx &c);                                      \
  static mc::Register mc_reg_##name(#name, mc_body_##name);                    \
  static void mc_body_##name([[maybe_unused]] mc::Ctx &c)
#define MC_SCENARIO_THOROUGH(name)                                             \
  static void mc_body_##name(mc::Ctx &c);                                      \
  static mc::Register mc_reg_##name(#name, mc_body_##name,                     \
                                    mc::THOROUGH_ONLY);                        \
  static void mc_body_##name([[maybe_unused]] mc::Ctx &c)

} // namespace mc

#endif
