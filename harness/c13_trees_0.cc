#define C13_LEAF 0
#include "c13_trees.inc"
