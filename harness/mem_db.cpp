#include "mem_db.h"

#include <rocksdb/utilities/stackable_db.h>

#include <mutex>
#include <set>

#include <sys/stat.h>

namespace memdb {
std::function<bool(bool)>               g_fault;
std::function<bool(const std::string&)> g_open_fault;

namespace {
std::mutex& mtx()
{
    static std::mutex* m = new std::mutex;
    return *m;
}
std::set<std::string>& locks()
{
    static auto* s = new std::set<std::string>;
    return *s;
}
// an access is one step of the calling thread, which orders nothing else
void point()
{
    mc::sched_point("database access");
}
} // namespace

std::map<std::string, Map>& disk()
{
    static auto* d = new std::map<std::string, Map>;
    return *d;
}
void forget()
{
    mc::Unmanaged u;
    disk().clear();
    locks().clear();
}
void exited()
{
    mc::Unmanaged u;
    locks().clear();
}
size_t opened()
{
    mc::Unmanaged u;
    return locks().size();
}

using namespace rocksdb;
class MemDB : public StackableDB
{
public:
    explicit MemDB(const std::string& path)
        : StackableDB(std::shared_ptr<DB>()), path_(path), m_(disk()[path])
    {
    }
    ~MemDB() override
    {
        mc::Unmanaged               u;
        std::lock_guard<std::mutex> g(mtx());
        locks().erase(path_);
    }
    using StackableDB::Delete;
    using StackableDB::Flush;
    using StackableDB::Get;
    using StackableDB::GetIntProperty;
    using StackableDB::Merge;
    using StackableDB::Put;
    using StackableDB::SingleDelete;
    using StackableDB::Write;
#define FAULT(w)                                                               \
    point();                                                                   \
    mc::Unmanaged u;                                                           \
    if (g_fault && g_fault(w))                                                 \
        return Status::IOError("injected");                                    \
    std::lock_guard<std::mutex> g(mtx());

    Status Put(const WriteOptions&, ColumnFamilyHandle*, const Slice& k, const Slice& v) override
    {
        FAULT(true);
        m_[k.ToString()] = v.ToString();
        return Status::OK();
    }
    Status Get(const ReadOptions&, ColumnFamilyHandle*, const Slice& k, PinnableSlice* v) override
    {
        FAULT(false);
        auto it = m_.find(k.ToString());
        if (it == m_.end())
            return Status::NotFound();
        v->PinSelf(it->second);
        return Status::OK();
    }
    Status Delete(const WriteOptions&, ColumnFamilyHandle*, const Slice& k) override
    {
        FAULT(true);
        m_.erase(k.ToString());
        return Status::OK();
    }
    Status SingleDelete(const WriteOptions& o, ColumnFamilyHandle* c, const Slice& k) override
    {
        return Delete(o, c, k);
    }
    Status Merge(const WriteOptions&, ColumnFamilyHandle*, const Slice&, const Slice&) override
    {
        return Status::NotSupported("not modelled");
    }
    Status Write(const WriteOptions&, WriteBatch* b) override
    {
        struct H : WriteBatch::Handler
        {
            Map& m;
            explicit H(Map& x) : m(x)
            {
            }
            void Put(const Slice& k, const Slice& v) override
            {
                m[k.ToString()] = v.ToString();
            }
            void Delete(const Slice& k) override
            {
                m.erase(k.ToString());
            }
            void SingleDelete(const Slice& k) override
            {
                m.erase(k.ToString());
            }
        };
        FAULT(true);
        H h(m_);
        return b->Iterate(&h);
    }
    Status Flush(const FlushOptions&, ColumnFamilyHandle*) override
    {
        FAULT(true);
        return Status::OK();
    }
    bool GetIntProperty(ColumnFamilyHandle*, const Slice& p, uint64_t* v) override
    {
        mc::Unmanaged               u;
        std::lock_guard<std::mutex> g(mtx());
        *v = m_.size();
        return p.ToString() == "rocksdb.estimate-num-keys";
    }
    ColumnFamilyHandle* DefaultColumnFamily() const override
    {
        return nullptr;
    }
    Status Close() override
    {
        return Status::OK();
    }

private:
    std::string path_;
    Map&        m_;
};
} // namespace memdb

namespace rocksdb {
Status DB::Open(const Options& options, const std::string& name, DB** dbptr)
{
    (void)options;
    mc::Unmanaged u;
    // as the original: a directory, used by one at a time
    if (memdb::g_open_fault && memdb::g_open_fault(name)) {
        return Status::IOError("injected");
    }
    ::mkdir(name.c_str(), 0700);
    struct stat st;
    if (::stat(name.c_str(), &st) != 0 || !S_ISDIR(st.st_mode)) {
        return Status::IOError(name + ": no such directory");
    }
    {
        std::lock_guard<std::mutex> g(memdb::mtx());
        if (!memdb::locks().insert(name).second) {
            return Status::IOError("lock hold by current process: " + name);
        }
    }
    *dbptr = new memdb::MemDB(name);
    return Status::OK();
}
} // namespace rocksdb
