// Scenarios written by TLC: one JSON array of flat records per line.
#ifndef SCEN_HPP
#define SCEN_HPP
#include <cctype>
#include <fstream>
#include <map>
#include <string>
#include <vector>
namespace scen {
struct Op {
    std::map<std::string, std::string> s;           // strings, numbers and booleans as text
    std::map<std::string, std::vector<int>> l;      // lists of integers
    std::string str(const std::string& k) const { auto i = s.find(k); return i == s.end() ? "" : i->second; }
    int i(const std::string& k) const { return std::atoi(str(k).c_str()); }
    bool b(const std::string& k) const { return str(k) == "true"; }
    std::vector<int> list(const std::string& k) const { auto i = l.find(k); return i == l.end() ? std::vector<int>{} : i->second; }
};
inline std::vector<Op> parse(const std::string& t) {
    std::vector<Op> ops;
    std::size_t p = 0;
    auto ws = [&] { while (p < t.size() && (std::isspace(static_cast<unsigned char>(t[p])) || t[p] == ',')) ++p; };
    auto word = [&] {
        std::string r;
        if (t[p] == '"') { ++p; while (t[p] != '"') r += t[p++]; ++p; }
        else while (p < t.size() && (std::isalnum(static_cast<unsigned char>(t[p])) || t[p] == '-' || t[p] == '.')) r += t[p++];
        return r;
    };
    ws();
    if (p >= t.size() || t[p] != '[') return ops;
    ++p;
    for (ws(); p < t.size() && t[p] == '{'; ws()) {
        Op o;
        ++p;
        for (ws(); t[p] != '}'; ws()) {
            const std::string k = word();
            while (t[p] != ':') ++p;
            ++p; ws();
            if (t[p] == '[') { ++p; auto& v = o.l[k]; for (ws(); t[p] != ']'; ws()) v.push_back(std::atoi(word().c_str())); ++p; }
            else o.s[k] = word();
        }
        ++p;
        ops.push_back(o);
    }
    return ops;
}
inline std::vector<std::vector<Op>> load(const std::string& path) {
    std::vector<std::vector<Op>> r;
    std::ifstream f(path);
    for (std::string line; std::getline(f, line);) if (!line.empty()) r.push_back(parse(line));
    return r;
}
}
#endif
