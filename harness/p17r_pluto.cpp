// P17 with the RocksDB back end.
#define P17_ROCKS
#include "p17_pluto.cpp"
