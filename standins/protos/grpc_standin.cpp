#include <grpcpp/grpcpp.h>

namespace grpc {
static const Status g_ok;
const Status&       Status::OK = g_ok;

namespace standin {
Net& net()
{
    static Net* n = new Net;
    return *n;
}
void misuse(const char* what)
{
    mc::Unmanaged               u;
    std::lock_guard<std::mutex> g(net().mtx);
    net().misuse = what;
}
Status set_last(const Status& s)
{
    mc::Unmanaged               u;
    std::lock_guard<std::mutex> g(net().mtx);
    net().last = s;
    return s;
}
thread_local bool in_handler = false;
Status            guarded(const std::function<Status()>& handler)
{
    struct Flag
    {
        bool old = in_handler;
        Flag()
        {
            in_handler = true;
        }
        ~Flag()
        {
            in_handler = old;
        }
    } flag;
    try {
        return handler();
    } catch (const std::exception& e) {
        mc::Unmanaged               u;
        std::lock_guard<std::mutex> g(net().mtx);
        net().exception = e.what();
    }
    return Status(UNKNOWN, "Unexpected error in RPC handling");
}
} // namespace standin
} // namespace grpc
