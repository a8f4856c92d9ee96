#define RUN_SCHED
#include "p25_sophos_runner.cpp"
