#define C14_FIRST VYX
#define C14_NAME 5
#include "c14_wrappers.inc"
