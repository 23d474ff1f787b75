// Every draw of std::default_random_engine is a choice of the model checker:
// include this first. The engine has 64 bits; a draw yields every one of
// `Draws::n` equal parts of its range (thus every outcome of a uniform draw of
// n integers), then, after `Draws::free` free draws, a fixed sequence of parts (so that
// rejection loops end).
#ifndef VERIF_DRAWS_H
#define VERIF_DRAWS_H

#include <algorithm>
#include <cstdint>
#include <map>
#include <random>
#include <set>
#include <string>
#include <vector>

#include "mc.h"

struct Draws {
  mc::Ctx *ctx = nullptr;
  int n = 1, free = 0, turn = 0, used = 0;
  // set: the draws are these instead (then a fixed sequence)
  const std::vector<int> *script = nullptr;
  static Draws &now() {
    static Draws d;
    return d;
  }
  static void control(mc::Ctx &c, int n, int free) {
    now().ctx = &c;
    now().script = nullptr;
    now().n = n;
    now().free = free;
    now().turn = now().used = 0;
  }
  static void follow(const std::vector<int> &draws, int n) {
    now().ctx = nullptr;
    now().script = &draws;
    now().n = n;
    now().turn = now().used = 0;
  }
  static bool ran_out() { return now().used > static_cast<int>(now().script->size()); }
  static int mixed(int turn) {
    uint64_t z = static_cast<uint64_t>(turn + 1) * 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return static_cast<int>((z ^ (z >> 31)) >> 40);
  }
  static void release() {
    now().ctx = nullptr;
    now().script = nullptr;
  }
};

namespace std {
class drawn_random_engine {
public:
  using result_type = uint64_t;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return ~0ull; }
  drawn_random_engine(result_type seed = 1) : state_(seed) {}
  void seed(result_type s = 1) { state_ = s; }
  result_type operator()() {
    Draws &d = Draws::now();
    if (!d.ctx && !d.script) { // an ordinary generator (split mix)
      state_ += 0x9e3779b97f4a7c15ull;
      uint64_t z = state_;
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
      return z ^ (z >> 31);
    }
    int v = 0;
    if (d.script)
      v = d.used < static_cast<int>(d.script->size()) ? (*d.script)[static_cast<std::size_t>(d.used)] : Draws::mixed(d.turn++) % d.n;
    else if (d.used < d.free)
      v = d.ctx->choose(d.n);
    else
      v = Draws::mixed(d.turn++) % d.n;
    ++d.used;
    return static_cast<uint64_t>((static_cast<unsigned __int128>(2 * v + 1) << 63) / static_cast<unsigned>(d.n));
  }

private:
  uint64_t state_;
};
} // namespace std
#define default_random_engine drawn_random_engine

#endif
