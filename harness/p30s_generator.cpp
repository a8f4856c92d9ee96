#define GEN_SCHED
#include "p30_generator.cpp"
