#define C14_FIRST X
#define C14_NAME 0
#include "c14_wrappers.inc"
