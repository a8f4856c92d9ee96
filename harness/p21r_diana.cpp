// P21 on the real RocksDB.
#define P21_REAL
#include "p21_diana.cpp"
