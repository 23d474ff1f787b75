#include "c31_trace.inc"
using Few = List<ForX, ForBoth, Noise>;
MC_SCENARIO(terms_on_the_right) {
  check_any(c, decltype(pairs(pairs(Few(), Few()), Few()))());
}
