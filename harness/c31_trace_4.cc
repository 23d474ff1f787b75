#include "c31_trace.inc"
using Few = List<ForX, ForY>;
using Two = decltype(pairs(Few(), Few()));
MC_SCENARIO(four_separate_terms) {
  check_any(c, decltype(pairs(Two(), Two()))());
}
