// P19 on the real RocksDB.
#define P19_REAL
#include "p19_sophos.cpp"
