#define C20_QR DenseQRImplementation
#define C20_NAME dense
#include "c20_sparse.inc"
