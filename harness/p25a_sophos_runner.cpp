#define RUN_SHALLOW
#include "p25_sophos_runner.cpp"
