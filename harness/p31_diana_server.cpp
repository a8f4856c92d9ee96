#define main diana_server_main
#include "src/diana_server.cpp"
