#define LOG_SCHED
#include "p29_logging.cpp"
