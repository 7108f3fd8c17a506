#include <cblas.h>  // system OpenBLAS
