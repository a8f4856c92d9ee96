// P23: the threads of the searches.
#define P23_SCHED
#include "p23_janus.cpp"
