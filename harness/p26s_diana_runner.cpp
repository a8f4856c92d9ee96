#define RUN_SCHED
#include "p26_diana_runner.cpp"
