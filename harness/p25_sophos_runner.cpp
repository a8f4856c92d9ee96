// P25: the network programs of Sophos.
#include "protos/sophos.grpc.pb.h"
#define SOPHOS_CLIENT_RUNNER_CPP
#include <sse/runners/sophos/sophos_client_runner.hpp>
#include <sse/runners/sophos/sophos_server_runner.hpp>
#include <sse/schemes/sophos/sophos_server.hpp>

#include <functional>

#define RUN_NS sophos
#define CLIENT SophosClientRunner
#define SERVER SophosServerRunner
#define PROTO Sophos
#define SERVER_KEYFILE "tdp_pk.key"

namespace {
const char*      CLIENT_KEYFILES[] = {"tdp_sk.key", "derivation_master.key", "rsa_prg.key"};
constexpr size_t KEY_SIZE          = sse::crypto::Tdp::kPkSize;
using Bytes                        = std::function<std::string(size_t)>;
void set_key(sse::sophos::SetupMessage& m, const std::string& k)
{
    m.set_public_key(k);
}
// optionally with a token or key of another length
sse::sophos::SearchRequestMessage raw_search(uint32_t n, Bytes a = nullptr, Bytes b = nullptr)
{
    using namespace sse::sophos;
    SearchRequestMessage m;
    m.set_add_count(n);
    m.set_search_token(a ? a(kSearchTokenSize) : std::string(kSearchTokenSize, 't'));
    m.set_derivation_key(b ? b(kDerivationKeySize) : std::string(kDerivationKeySize, 'd'));
    return m;
}
} // namespace
#include "runner_common.h"

void mc_register()
{
    if (!getenv("MC_LOG")) {
        sse::logger::set_logger(nullptr);
        std::cerr.rdbuf(nullptr);
    }
    register_common();
}
