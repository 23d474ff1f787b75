#define C13_LEAF 3
#include "c13_trees.inc"
