// What the gRPC plugin of protoc makes of sophos.proto (the messages themselves
// are generated from it by protoc).
#pragma once
#include "protos/sophos.pb.h"

#include <google/protobuf/empty.pb.h>
#include <grpcpp/grpcpp.h>

namespace sse {
namespace sophos {

class Sophos final
{
public:
    class Service : public grpc::Service
    {
    public:
        virtual grpc::Status setup(grpc::ServerContext*, const SetupMessage*, google::protobuf::Empty*)
        {
            return grpc::Status(grpc::UNIMPLEMENTED, "");
        }
        virtual grpc::Status search(grpc::ServerContext*, const SearchRequestMessage*, grpc::ServerWriter<SearchReply>*)
        {
            return grpc::Status(grpc::UNIMPLEMENTED, "");
        }
        virtual grpc::Status insert(grpc::ServerContext*, const UpdateRequestMessage*, google::protobuf::Empty*)
        {
            return grpc::Status(grpc::UNIMPLEMENTED, "");
        }
        virtual grpc::Status bulk_insert(grpc::ServerContext*,
                                         grpc::ServerReader<UpdateRequestMessage>*,
                                         google::protobuf::Empty*)
        {
            return grpc::Status(grpc::UNIMPLEMENTED, "");
        }
    };
    class Stub
    {
    public:
        explicit Stub(std::shared_ptr<grpc::Channel> ch) : ch_(std::move(ch))
        {
        }
        grpc::Status setup(grpc::ClientContext*, const SetupMessage& m, google::protobuf::Empty* e)
        {
            return grpc::standin::call(*ch_, "setup", &Service::setup, m, e);
        }
        std::unique_ptr<grpc::ClientReader<SearchReply>> search(grpc::ClientContext*, const SearchRequestMessage& m)
        {
            return grpc::standin::call_reader(*ch_, "search", &Service::search, m);
        }
        grpc::Status insert(grpc::ClientContext*, const UpdateRequestMessage& m, google::protobuf::Empty* e)
        {
            return grpc::standin::call(*ch_, "insert", &Service::insert, m, e);
        }
        std::unique_ptr<grpc::ClientWriter<UpdateRequestMessage>> bulk_insert(grpc::ClientContext* c,
                                                                              google::protobuf::Empty*)
        {
            return grpc::standin::call_writer(*ch_, c, "bulk_insert", &Service::bulk_insert);
        }

    private:
        std::shared_ptr<grpc::Channel> ch_;
    };
    static std::unique_ptr<Stub> NewStub(const std::shared_ptr<grpc::Channel>& ch)
    {
        return std::unique_ptr<Stub>(new Stub(ch));
    }
};

} // namespace sophos
} // namespace sse
