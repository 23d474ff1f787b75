#define C13_LEAF 1
#include "c13_trees.inc"
