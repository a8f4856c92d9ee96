// An in-memory database behind the store wrappers, in place of RocksDB (by
// interposing rocksdb::DB::Open): the stores' own properties are P01-P04,
// those of the schemes above them need many more histories.
#pragma once
#include "mc.h"

#include <functional>
#include <map>
#include <string>

namespace memdb {
using Map = std::map<std::string, std::string>;
// all contents, by path; they survive closing
std::map<std::string, Map>& disk();
// close and forget everything
void forget();
// the processes which had them open ended
void exited();
// number of databases which are open
size_t opened();
// called before every access; true: the access fails
extern std::function<bool(bool write)> g_fault;
// called before a database is opened; true: it cannot be
extern std::function<bool(const std::string&)> g_open_fault;
} // namespace memdb
