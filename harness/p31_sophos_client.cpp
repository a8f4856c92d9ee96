#define main sophos_client_main
#include "src/sophos_client.cpp"
