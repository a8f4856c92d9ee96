// P23 on the real RocksDB.
#define P23_REAL
#include "p23_janus.cpp"
