#include "c31_trace.inc"
using Few = List<ForX, ForBoth, Noise>;
MC_SCENARIO(terms_on_the_left) {
  check_any(c, decltype(pairs(Few(), pairs(Few(), Few())))());
}
