// Stand-in for the (absent) gRPC headers, see grpcpp/grpcpp.h.
#pragma once
