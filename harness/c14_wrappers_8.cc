#define C14_FIRST LY
#define C14_NAME 8
#include "c14_wrappers.inc"
