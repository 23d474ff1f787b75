#include "c31_trace.inc"
using Few = List<Cross, ForBoth>;
using Two = decltype(pairs(Few(), Few()));
MC_SCENARIO(four_terms) { check_any(c, decltype(pairs(Two(), Two()))()); }
