#define C14_FIRST LV
#define C14_NAME 9
#include "c14_wrappers.inc"
