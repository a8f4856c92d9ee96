#define RUN_SHALLOW
#include "p26_diana_runner.cpp"
