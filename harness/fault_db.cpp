#include "store_common.h"

#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>

namespace faultdb {
std::function<int(bool)> g_fault;
uint64_t                 g_failed = 0;

static rocksdb::Status failure(int kind)
{
    g_failed++;
    switch (kind) {
    case 1:
        return rocksdb::Status::IOError("injected");
    case 2:
        return rocksdb::Status::Corruption("injected");
    default:
        return rocksdb::Status::Busy("injected");
    }
}

using namespace rocksdb;
class FaultDB : public StackableDB
{
public:
    explicit FaultDB(DB* db) : StackableDB(db)
    {
    }
#define FAULT(write)                                                           \
    if (g_fault) {                                                             \
        int k = g_fault(write);                                                \
        if (k)                                                                 \
            return failure(k);                                                 \
    }
    using StackableDB::Delete;
    using StackableDB::Get;
    using StackableDB::Merge;
    using StackableDB::Put;
    using StackableDB::SingleDelete;
    Status Put(const WriteOptions& o, ColumnFamilyHandle* c, const Slice& k, const Slice& v) override
    {
        FAULT(true);
        return StackableDB::Put(o, c, k, v);
    }
    Status Get(const ReadOptions& o, ColumnFamilyHandle* c, const Slice& k, PinnableSlice* v) override
    {
        FAULT(false);
        return StackableDB::Get(o, c, k, v);
    }
    Status Delete(const WriteOptions& o, ColumnFamilyHandle* c, const Slice& k) override
    {
        FAULT(true);
        return StackableDB::Delete(o, c, k);
    }
    Status SingleDelete(const WriteOptions& o, ColumnFamilyHandle* c, const Slice& k) override
    {
        FAULT(true);
        return StackableDB::SingleDelete(o, c, k);
    }
    Status Merge(const WriteOptions& o, ColumnFamilyHandle* c, const Slice& k, const Slice& v) override
    {
        FAULT(true);
        return StackableDB::Merge(o, c, k, v);
    }
    Status Write(const WriteOptions& o, WriteBatch* b) override
    {
        FAULT(true);
        return StackableDB::Write(o, b);
    }
};
} // namespace faultdb

namespace rocksdb {
Status DB::Open(const Options& options, const std::string& name, DB** dbptr)
{
    using F        = Status (*)(const Options&, const std::string&, DB**);
    static F  real = (F)dlsym(
        RTLD_NEXT,
        "_ZN7rocksdb2DB4OpenERKNS_7OptionsERKNSt7__cxx1112basic_stringIcSt11char_"
        "traitsIcESaIcEEEPPS0_");
    Status st = real(options, name, dbptr);
    if (st.ok()) {
        *dbptr = new faultdb::FaultDB(*dbptr);
    }
    return st;
}
} // namespace rocksdb

// The stores preallocate far more than they use; keep that out of the tmpfs.
extern "C" int fallocate(int, int, off_t, off_t)
{
    return 0;
}

namespace store {
void wipe(const std::string& dir)
{
    if (dir.find("/mcscratch.") == std::string::npos) {
        abort();
    }
    DIR* d = ::opendir(dir.c_str());
    if (!d) {
        return;
    }
    while (dirent* e = ::readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != "..") {
            ::unlink((dir + "/" + n).c_str());
        }
    }
    ::closedir(d);
    ::rmdir(dir.c_str());
}
} // namespace store
