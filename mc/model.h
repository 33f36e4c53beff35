// Reference semantics used by the checks, written from the MQTT specifications, sharing nothing with the server.
#pragma once
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
namespace model {
inline std::vector<std::string> split(const std::string &s)
{
    std::vector<std::string> v; std::string cur;
    for (char c : s) if (c == '/') { v.push_back(cur); cur.clear(); } else cur += c;
    v.push_back(cur);
    return v;
}
inline bool matches(const std::string &filter, const std::string &topic)
{
    auto f = split(filter), t = split(topic);
    if (!topic.empty() && topic[0] == '$' && (filter[0] == '+' || filter[0] == '#')) return false;
    size_t i = 0;
    for (; i < f.size(); i++) {
        if (f[i] == "#") return true;                 // also the parent level: i may equal t.size()
        if (i >= t.size()) return false;
        if (f[i] != "+" && f[i] != t[i]) return false;
    }
    return i == t.size();
}
inline bool valid_filter(const std::string &f)
{
    if (f.empty()) return false;
    auto v = split(f);
    for (size_t i = 0; i < v.size(); i++) {
        if (v[i].find('#') != std::string::npos && (v[i] != "#" || i + 1 != v.size())) return false;
        if (v[i].find('+') != std::string::npos && v[i] != "+") return false;
    }
    return true;
}
// all paths of up to depth levels over the tokens
inline std::vector<std::string> paths(const std::vector<std::string> &tokens, int depth)
{
    std::vector<std::string> all, last{""};
    bool first = true;
    for (int d = 0; d < depth; d++) {
        std::vector<std::string> next;
        for (auto &p : last) for (auto &t : tokens) next.push_back(first ? t : p + "/" + t);
        first = false;
        all.insert(all.end(), next.begin(), next.end());
        last = next;
    }
    return all;
}
inline std::string join(const std::vector<std::string> &v, const char *sep = ",")
{
    std::string r; for (size_t i = 0; i < v.size(); i++) { if (i) r += sep; r += v[i]; } return r;
}
}
