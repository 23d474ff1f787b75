#define C14_FIRST Measurement<X>
#define C14_NAME 2
#include "c14_wrappers.inc"
