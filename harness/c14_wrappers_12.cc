#define C14_FIRST VL
#define C14_NAME 12
#include "c14_wrappers.inc"
