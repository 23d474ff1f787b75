#define C14_FIRST MVXY
#define C14_NAME 6
#include "c14_wrappers.inc"
