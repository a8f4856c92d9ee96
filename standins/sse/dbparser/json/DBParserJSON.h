// Stand-in for the (absent) database parser: reads a flat inverted index from
// a text file ("keyword id id id" per line) and calls the callbacks per line.
// A line "!" is a syntax error.
#pragma once
#include <fstream>
#include <functional>
#include <list>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace dbparser {

class DBParserJSON
{
public:
    explicit DBParserJSON(const char* path) : path_(path)
    {
    }
    void addCallbackList(
        const std::function<void(const std::string, const std::list<unsigned>)>& cb)
    {
        list_.push_back(cb);
    }
    void addCallbackPair(
        const std::function<void(const std::string, const unsigned)>& cb)
    {
        pair_.push_back(cb);
    }
    void parse()
    {
        std::ifstream in(path_);
        std::string   line;
        while (std::getline(in, line)) {
            std::istringstream  is(line);
            std::string         kw;
            std::list<unsigned> ids;
            unsigned            id;
            is >> kw;
            if (kw == "!") {
                throw std::runtime_error("malformed index");
            }
            while (is >> id) {
                ids.push_back(id);
            }
            for (auto& cb : list_) {
                cb(kw, ids);
            }
            for (auto& cb : pair_) {
                for (unsigned i : ids) {
                    cb(kw, i);
                }
            }
        }
    }

private:
    std::string path_;
    std::vector<std::function<void(const std::string, const std::list<unsigned>)>> list_;
    std::vector<std::function<void(const std::string, const unsigned)>>           pair_;
};

} // namespace dbparser
