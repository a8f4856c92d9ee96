// P31: the command-line programs of diana.
#include <grpcpp/grpcpp.h>
#include <algorithm>
#include <sse/crypto/ideal.hpp>
#define CLIENT_MAIN diana_client_main
#define SERVER_MAIN diana_server_main
#define DEFAULT_CLIENT "test.dcdb"
#define DEFAULT_SERVER "test.dsdb"
#define QUIET "-q"
#include "programs_common.h"
