#define C14_FIRST Measurement<Y>
#define C14_NAME 3
#include "c14_wrappers.inc"
