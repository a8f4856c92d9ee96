// P31: the command-line programs of sophos.
#include <grpcpp/grpcpp.h>
#include <algorithm>
#include <sse/crypto/ideal.hpp>
#define CLIENT_MAIN sophos_client_main
#define SERVER_MAIN sophos_server_main
#define DEFAULT_CLIENT "test.csdb"
#define DEFAULT_SERVER "test.ssdb"

#include "programs_common.h"
