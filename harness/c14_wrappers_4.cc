#define C14_FIRST VXY
#define C14_NAME 4
#include "c14_wrappers.inc"
