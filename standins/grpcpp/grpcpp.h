// Stand-in for the (absent) gRPC: servers and channels inside one process.
// As with the original, messages cross the channel in serialised form, a
// handler runs concurrently with the client of a stream, an exception of a
// handler becomes a status UNKNOWN, and the calls on one stream must not
// overlap (the unprotected counters below are what the race detector sees).
#pragma once
#include <google/protobuf/message_lite.h>

#include "mc.h"

#include <condition_variable>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>

namespace grpc {

enum StatusCode {
    OK                  = 0,
    CANCELLED           = 1,
    UNKNOWN             = 2,
    INVALID_ARGUMENT    = 3,
    DEADLINE_EXCEEDED   = 4,
    NOT_FOUND           = 5,
    ALREADY_EXISTS      = 6,
    PERMISSION_DENIED   = 7,
    RESOURCE_EXHAUSTED  = 8,
    FAILED_PRECONDITION = 9,
    ABORTED             = 10,
    OUT_OF_RANGE        = 11,
    UNIMPLEMENTED       = 12,
    INTERNAL            = 13,
    UNAVAILABLE         = 14,
    DATA_LOSS           = 15,
    UNAUTHENTICATED     = 16
};

class Status
{
public:
    Status() = default;
    Status(StatusCode c, const std::string& m) : code_(c), message_(m)
    {
    }
    static const Status& OK;
    bool                 ok() const
    {
        return code_ == StatusCode::OK;
    }
    StatusCode error_code() const
    {
        return code_;
    }
    std::string error_message() const
    {
        return message_;
    }

private:
    StatusCode  code_{StatusCode::OK};
    std::string message_;
};

class ServerContext
{
};
namespace standin {
// the real library loses messages, or worse
void misuse(const char* what);
} // namespace standin
class ClientContext
{
public:
    ~ClientContext()
    {
        if (running && *running) {
            standin::misuse("the context of a running call is destroyed");
        }
    }
    std::shared_ptr<bool> running; // a stream which has not been finished
};

class Service
{
public:
    virtual ~Service() = default;
};

class ServerCredentials
{
};
class ChannelCredentials
{
};
inline std::shared_ptr<ServerCredentials> InsecureServerCredentials()
{
    return std::make_shared<ServerCredentials>();
}
inline std::shared_ptr<ChannelCredentials> InsecureChannelCredentials()
{
    return std::make_shared<ChannelCredentials>();
}

// ---- what the harness sees and decides
namespace standin {
struct Net
{
    std::mutex                      mtx;
    std::map<std::string, Service*> servers; // by address
    std::condition_variable         stopped;
    bool                            wait = false; // does Wait() block until Shutdown()?
    int                             waiting = 0;  // servers in Wait()
    // what happens to a call: 0 nothing, 1 the request is lost, 2 the reply
    std::function<int(const char* method)> fault;
    // does the stream break at this message?
    std::function<bool(const char* method)> broken;
    // a client's write to a stream waits until the handler wants more
    bool        eager = true;
    std::string exception; // the last one which left a handler
    std::string misuse;    // of the library by the code under test
    Status      last;      // of the last call
};
extern thread_local bool in_handler; // this thread is a server's
Net&   net();
Status set_last(const Status& s);
Status guarded(const std::function<Status()>& handler);
} // namespace standin

// every name of a host is this machine: addresses differ by their ports
inline std::string port(const std::string& address)
{
    return address.substr(address.rfind(':') + 1);
}
class Channel
{
public:
    explicit Channel(const std::string& address) : address_(port(address))
    {
    }
    template<class S>
    S* find() const
    {
        mc::Unmanaged               u;
        std::lock_guard<std::mutex> g(standin::net().mtx);
        auto                        it = standin::net().servers.find(address_);
        return it == standin::net().servers.end() ? nullptr : dynamic_cast<S*>(it->second);
    }

private:
    std::string address_;
};
inline std::shared_ptr<Channel> CreateChannel(const std::string& address, const std::shared_ptr<ChannelCredentials>&)
{
    return std::make_shared<Channel>(address);
}

class Server
{
public:
    Server(const std::string& address, Service* s) : address_(port(address)), service_(s)
    {
        mc::Unmanaged               u;
        std::lock_guard<std::mutex> g(standin::net().mtx);
        standin::net().servers[address_] = s;
        standin::net().stopped.notify_all();
    }
    ~Server()
    {
        Shutdown();
    }
    void Shutdown()
    {
        mc::Unmanaged               u;
        std::lock_guard<std::mutex> g(standin::net().mtx);
        auto                        it = standin::net().servers.find(address_);
        if (it == standin::net().servers.end() || it->second != service_)
            return;
        standin::net().servers.erase(address_);
        standin::net().stopped.notify_all();
    }
    void Wait()
    {
        mc::Unmanaged                u;
        std::unique_lock<std::mutex> l(standin::net().mtx);
        standin::net().waiting++;
        standin::net().stopped.notify_all();
        standin::net().stopped.wait(l, [&] {
            auto it = standin::net().servers.find(address_);
            return !standin::net().wait || it == standin::net().servers.end() || it->second != service_;
        });
        standin::net().waiting--;
    }

private:
    std::string address_;
    Service*    service_;
};

class ServerBuilder
{
public:
    ServerBuilder& AddListeningPort(const std::string& address, const std::shared_ptr<ServerCredentials>&)
    {
        address_ = address;
        return *this;
    }
    ServerBuilder& RegisterService(Service* s)
    {
        service_ = s;
        return *this;
    }
    std::unique_ptr<Server> BuildAndStart()
    {
        return std::unique_ptr<Server>(new Server(address_, service_));
    }

private:
    std::string address_;
    Service*    service_ = nullptr;
};

template<class M>
std::string pack(const M& m)
{
    std::string s;
    if (!m.SerializeToString(&s)) {
        throw std::runtime_error("stand-in: serialisation failed");
    }
    return s;
}
template<class M>
bool unpack(const std::string& s, M* m)
{
    return m->ParseFromString(s);
}

// ---- server to client
namespace standin {
struct ReplyQueue
{
    std::deque<std::string> q;
    bool                    broken = false;
    Status                  status;
};
} // namespace standin

template<class M>
class ServerWriter
{
public:
    explicit ServerWriter(standin::ReplyQueue* q, const char* method) : q_(q), method_(method)
    {
    }
    bool Write(const M& m)
    {
        // calls which overlap are errors of the caller
        written_++;
        if (!q_->broken && standin::net().broken && standin::net().broken(method_)) {
            q_->broken = true;
        }
        if (q_->broken) {
            return false;
        }
        q_->q.push_back(pack(m));
        return true;
    }

private:
    standin::ReplyQueue* q_;
    const char*          method_;
    size_t               written_ = 0;
};

template<class M>
class ClientReader
{
public:
    explicit ClientReader(std::shared_ptr<standin::ReplyQueue> q) : q_(std::move(q))
    {
    }
    bool Read(M* m)
    {
        if (q_->q.empty()) {
            return false;
        }
        std::string s = q_->q.front();
        q_->q.pop_front();
        return unpack(s, m);
    }
    Status Finish()
    {
        return q_->status;
    }

private:
    std::shared_ptr<standin::ReplyQueue> q_;
};

// ---- client to server
namespace standin {
struct RequestQueue
{
    std::mutex              mtx;
    std::condition_variable cv;
    std::deque<std::string> q;
    bool                    closed  = false; // the client writes no more
    bool                    broken  = false;
    bool                    waiting = false; // the handler wants more
    bool                    done    = false;
    Status                  status;
};
} // namespace standin

template<class M>
class ServerReader
{
public:
    explicit ServerReader(standin::RequestQueue* q) : q_(q)
    {
    }
    bool Read(M* m)
    {
        std::string s;
        {
            std::unique_lock<std::mutex> g(q_->mtx);
            while (q_->q.empty() && !q_->closed && !q_->broken) {
                q_->waiting = true;
                q_->cv.notify_all();
                q_->cv.wait(g);
            }
            q_->waiting = false;
            if (q_->q.empty()) {
                return false;
            }
            s = q_->q.front();
            q_->q.pop_front();
        }
        return unpack(s, m);
    }

private:
    standin::RequestQueue* q_;
};

template<class M>
class ClientWriter
{
public:
    // without a handler: the server is not there
    ClientWriter(std::function<Status(ServerReader<M>*)> handler, ClientContext* ctx, const char* method)
        : method_(method), q_(std::make_shared<standin::RequestQueue>()), running_(std::make_shared<bool>(true))
    {
        ctx->running = running_;
        if (!handler) {
            q_->done = q_->broken = true;
            q_->status            = Status(UNAVAILABLE, "stand-in: no server");
            return;
        }
        auto q  = q_;
        thread_ = std::thread([q, handler] {
            ServerReader<M> reader(q.get());
            Status          s = standin::guarded([&] { return handler(&reader); });
            std::lock_guard<std::mutex> g(q->mtx);
            q->done = true;
            if (!q->broken) {
                q->status = s;
            }
            q->cv.notify_all();
        });
        if (standin::net().eager) {
            std::unique_lock<std::mutex> g(q_->mtx);
            q_->cv.wait(g, [&] { return q_->done || q_->waiting; });
        }
    }
    ~ClientWriter()
    {
        if (*running_) {
            standin::misuse("a stream of updates is destroyed before its end");
            *running_ = false;
        }
        if (thread_.joinable()) { // cancelled
            {
                std::lock_guard<std::mutex> g(q_->mtx);
                q_->broken = true;
                q_->cv.notify_all();
            }
            thread_.join();
        }
    }
    bool Write(const M& m)
    {
        written_++;
        std::string                  s = pack(m);
        std::unique_lock<std::mutex> g(q_->mtx);
        if (!q_->done && !q_->broken && standin::net().broken && standin::net().broken(method_)) {
            q_->broken = true;
            q_->status = Status(UNAVAILABLE, "stand-in: broken stream");
            q_->cv.notify_all();
        }
        if (q_->done || q_->broken || q_->closed) {
            return false;
        }
        q_->q.push_back(s);
        q_->waiting = false;
        q_->cv.notify_all();
        if (standin::net().eager) {
            q_->cv.wait(g, [&] { return q_->done || (q_->waiting && q_->q.empty()); });
        }
        return true;
    }
    bool WritesDone()
    {
        written_++;
        std::lock_guard<std::mutex> g(q_->mtx);
        q_->closed = true;
        q_->cv.notify_all();
        return true;
    }
    Status Finish()
    {
        *running_ = false;
        if (thread_.joinable()) {
            thread_.join();
        }
        standin::set_last(q_->status);
        return q_->status;
    }

private:
    const char*                            method_;
    size_t                                 written_ = 0;
    std::shared_ptr<standin::RequestQueue> q_;
    std::thread                            thread_;
    std::shared_ptr<bool>                  running_;
};

// ---- calls, used by the generated-like stubs
namespace standin {
template<class S, class Req, class Rep>
Status call(const Channel& ch, const char* method, Status (S::*f)(ServerContext*, const Req*, Rep*), const Req& req, Rep* rep)
{
    int  fault = net().fault ? net().fault(method) : 0;
    S*   s     = ch.find<S>();
    if (!s || fault == 1) {
        return set_last(Status(UNAVAILABLE, "stand-in: no server"));
    }
    Req           r;
    Rep           p;
    ServerContext ctx;
    if (!unpack(pack(req), &r)) {
        return set_last(Status(INTERNAL, "stand-in: parsing failed"));
    }
    Status st = guarded([&] { return (s->*f)(&ctx, &r, &p); });
    if (fault == 2) {
        return set_last(Status(UNAVAILABLE, "stand-in: reply lost"));
    }
    if (st.ok() && !unpack(pack(p), rep)) {
        st = Status(INTERNAL, "stand-in: parsing failed");
    }
    return set_last(st);
}
template<class S, class Req, class Rep>
std::unique_ptr<ClientReader<Rep>> call_reader(const Channel& ch,
                                               const char*    method,
                                               Status (S::*f)(ServerContext*, const Req*, ServerWriter<Rep>*),
                                               const Req& req)
{
    auto q     = std::make_shared<ReplyQueue>();
    int  fault = net().fault ? net().fault(method) : 0;
    S*   s     = ch.find<S>();
    if (!s || fault == 1) {
        q->status = Status(UNAVAILABLE, "stand-in: no server");
    } else {
        Req               r;
        ServerContext     ctx;
        ServerWriter<Rep> w(q.get(), method);
        unpack(pack(req), &r);
        q->status = guarded([&] { return (s->*f)(&ctx, &r, &w); });
        if (fault == 2 || q->broken) {
            q->status = Status(UNAVAILABLE, "stand-in: reply lost");
        }
    }
    set_last(q->status);
    return std::unique_ptr<ClientReader<Rep>>(new ClientReader<Rep>(q));
}
template<class S, class Req, class Rep>
std::unique_ptr<ClientWriter<Req>> call_writer(const Channel& ch,
                                               ClientContext* ctx,
                                               const char*    method,
                                               Status (S::*f)(ServerContext*, ServerReader<Req>*, Rep*))
{
    int fault = net().fault ? net().fault(method) : 0;
    S*  s     = ch.find<S>();
    std::function<Status(ServerReader<Req>*)> h;
    if (s && fault != 1) {
        h = [s, f](ServerReader<Req>* r) {
            ServerContext ctx;
            Rep           rep;
            return (s->*f)(&ctx, r, &rep);
        };
    }
    return std::unique_ptr<ClientWriter<Req>>(new ClientWriter<Req>(h, ctx, method));
}
} // namespace standin
} // namespace grpc
