#include "c31_trace.inc"
using Leaves = List<ForX, ForY, ForBoth, Cross, Noise>;
MC_SCENARIO(one_term) { check_any(c, Leaves()); }
MC_SCENARIO(two_terms) { check_any(c, decltype(pairs(Leaves(), Leaves()))()); }
