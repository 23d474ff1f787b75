#define C14_FIRST Y
#define C14_NAME 1
#include "c14_wrappers.inc"
