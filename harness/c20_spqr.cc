#define C20_QR SPQRImplementation
#define C20_NAME spqr
#include "c20_sparse.inc"
