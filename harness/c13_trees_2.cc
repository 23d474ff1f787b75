#define C13_LEAF 2
#include "c13_trees.inc"
