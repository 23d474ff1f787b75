#define C14_FIRST LX
#define C14_NAME 7
#include "c14_wrappers.inc"
