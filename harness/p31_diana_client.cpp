#define main diana_client_main
#include "src/diana_client.cpp"
