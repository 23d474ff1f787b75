#define C14_FIRST Measurement<LX>
#define C14_NAME 10
#include "c14_wrappers.inc"
