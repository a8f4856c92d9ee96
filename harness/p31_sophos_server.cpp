#define main sophos_server_main
#include "src/sophos_server.cpp"
