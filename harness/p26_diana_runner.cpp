// P26: the network programs of Diana.
#include "protos/diana.grpc.pb.h"
#define DIANA_CLIENT_RUNNER_CPP
#include <sse/runners/diana/client_runner.hpp>
#include <sse/runners/diana/server_runner.hpp>
#include <sse/schemes/diana/diana_server.hpp>

#include <functional>

#define RUN_NS diana
#define HAS_LISTS
#define CLIENT DianaClientRunner
#define SERVER DianaServerRunner
#define PROTO Diana
#define SERVER_KEYFILE "wrapping.key"

namespace {
const char*      CLIENT_KEYFILES[] = {"master_derivation.key", "kw_token_master.key", "wrapping.key"};
constexpr size_t KEY_SIZE          = sse::crypto::Wrapper::kKeySize;
constexpr size_t kUpdateTokenSize  = std::tuple_size<sse::diana::update_token_type>::value;
using Bytes                        = std::function<std::string(size_t)>;
void set_key(sse::diana::SetupMessage& m, const std::string& k)
{
    m.set_wrapping_key(k);
}
// optionally with a token or key of another length
sse::diana::SearchRequestMessage raw_search(uint32_t n, Bytes a = nullptr, Bytes b = nullptr)
{
    using namespace sse::diana;
    SearchRequestMessage m;
    m.set_add_count(n);
    m.set_kw_token(a ? a(std::tuple_size<keyword_token_type>::value)
                     : std::string(std::tuple_size<keyword_token_type>::value, 't'));
    m.set_constrained_rcprf_rep(b ? b(41) : std::string(41, 'd'));
    return m;
}
} // namespace
#include "runner_common.h"

void mc_register()
{
    if (!getenv("MC_LOG")) {
        sse::logger::set_logger(nullptr);
        std::cerr.rdbuf(nullptr);
    }
    register_common();
}
