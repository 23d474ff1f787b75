#define C14_FIRST Measurement<LV>
#define C14_NAME 11
#include "c14_wrappers.inc"
