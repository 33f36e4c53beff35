// A small sequential reference broker: what every client should receive. Used to judge the real server.
#pragma once
#include "model.h"
#include "mqtt.h"
#include <memory>
namespace model {
struct Del {
    std::string topic, payload; int qos = 0; bool retain = false; uint32_t subid = 0; uint64_t until = UINT64_MAX; // ns
    std::string txt() const { return topic + "|" + payload + "|q" + std::to_string(qos) + (retain ? "|R" : "") + (subid ? "|s" + std::to_string(subid) : ""); }
};
struct Sub { std::string filter; int qos = 0; bool nl = false, rap = false; uint32_t id = 0; };
struct Ses {
    std::string id; int ver = 4; bool online = false; uint64_t expiry = 0; uint64_t off_at = 0; // seconds
    std::map<std::string, Sub> subs;
    std::vector<Del> expect;
};
struct Broker {
    std::map<std::string, Ses> ses;
    std::map<std::string, Del> retained;
    static uint64_t now() { return sim::now_ns() / 1000000000ull; }
    void expire() { for (auto it = ses.begin(); it != ses.end();) if (!it->second.online && now() >= it->second.off_at + it->second.expiry) it = ses.erase(it); else ++it; }
    // returns whether a session was present
    bool connect(const std::string &id, int ver, bool clean, uint64_t expiry)
    {
        expire();
        bool sp = ses.count(id) && !clean;
        if (sp && ses[id].online && ses[id].expiry == 0) sp = false; // taken over, but ends with its connection
        if (!sp) ses[id] = Ses();
        Ses &s = ses[id]; s.id = id; s.ver = ver; s.online = true; s.expiry = expiry;
        return sp;
    }
    void offline(const std::string &id) { auto it = ses.find(id); if (it == ses.end()) return; it->second.online = false; it->second.off_at = now(); if (it->second.expiry == 0) ses.erase(it);
        else { auto &e = it->second.expect; e.erase(std::remove_if(e.begin(), e.end(), [](const Del &d) { return d.qos == 0; }), e.end()); } }
    // returns true when the subscription is new
    bool subscribe(const std::string &id, const Sub &s) { bool n = !ses[id].subs.count(s.filter); ses[id].subs[s.filter] = s; return n; }
    bool unsubscribe(const std::string &id, const std::string &f) { return ses[id].subs.erase(f) > 0; }
    void give_retained(const std::string &id, const Sub &s)
    {
        for (auto &r : retained) if (matches(s.filter, r.first) && sim::now_ns() <= r.second.until) { Del d = r.second; d.qos = std::min(d.qos, s.qos); d.retain = true; d.subid = ses[id].ver >= 5 ? s.id : 0; ses[id].expect.push_back(d); }
    }
    void publish(const std::string &from, const std::string &topic, const std::string &payload, int qos, bool retain = false, uint64_t expire_s = UINT64_MAX)
    {
        uint64_t until = expire_s == UINT64_MAX ? UINT64_MAX : sim::now_ns() + expire_s * 1000000000ull;
        expire();
        if (!topic.empty() && topic[0] == '$') return;   // clients' publishes into the broker's own tree have no effect
        if (retain) { if (payload.empty()) retained.erase(topic); else { Del d; d.topic = topic; d.payload = payload; d.qos = qos; d.until = until; retained[topic] = d; } }
        for (auto &kv : ses) for (auto &sv : kv.second.subs) {
            const Sub &s = sv.second;
            if (!matches(s.filter, topic) || (s.nl && kv.first == from)) continue;
            Del d; d.topic = topic; d.payload = payload; d.qos = std::min(qos, s.qos); d.retain = retain && s.rap; d.subid = kv.second.ver >= 5 ? s.id : 0;
            d.until = until;
            if (!kv.second.online && d.qos == 0) continue;
            kv.second.expect.push_back(d);
        }
    }
    std::string text() const
    {
        std::string r;
        for (auto &kv : ses) { r += kv.first + (kv.second.online ? "+" : "-") + "["; for (auto &s : kv.second.subs) r += s.first + ":" + std::to_string(s.second.qos) + " "; r += "]" + std::to_string(kv.second.expect.size()) + " "; }
        r += "R{"; for (auto &x : retained) r += x.first + "=" + x.second.payload + " "; r += "}";
        return r;
    }
};
inline Del to_del(const mq::Pkt &p)
{
    Del d; d.topic = p.topic; d.payload = p.payload; d.qos = p.qos; d.retain = p.retain;
    for (auto &x : p.props) if (x.id == mq::P_SUBID) d.subid = d.subid * 1000 + x.num;
    return d;
}
inline std::string list(const std::vector<Del> &v) { std::string r; for (auto &d : v) r += "{" + d.txt() + "} "; return r.empty() ? "(nothing)" : r; }
// Compares what a client received since the last look with what the model says; consumes both.
// Ordering is judged per payload-number by ordered=true: for equal topic and qos the sequence must be the model's.
inline void compare(const char *sig, mc::Cl &c, Broker &b, const char *when, bool do_ack = true)
{
    auto got0 = c.publishes(do_ack);
    std::vector<Del> got; for (auto &p : got0) got.push_back(to_del(p));
    std::vector<Del> want;
    auto it = b.ses.find(c.o.id);
    if (it != b.ses.end()) { for (auto &d : it->second.expect) if (d.until >= sim::now_ns()) want.push_back(d); it->second.expect.clear(); }
    auto key = [](const std::vector<Del> &v) { std::vector<std::string> k; for (auto &d : v) k.push_back(d.txt()); std::sort(k.begin(), k.end()); return k; };
    if (key(got) != key(want)) mc::fail(sig, "%s: client %s received %s but should have received %s", when, c.name.c_str(), list(got).c_str(), list(want).c_str());
    std::map<std::string, std::vector<std::string>> og, ow;
    for (auto &d : got) if (!d.retain) og[d.topic + std::to_string(d.qos)].push_back(d.payload);
    for (auto &d : want) if (!d.retain) ow[d.topic + std::to_string(d.qos)].push_back(d.payload);
    for (auto &kv : og) if (kv.second != ow[kv.first]) mc::fail(std::string(sig) + "-order", "%s: client %s received in the order %s instead of %s", when, c.name.c_str(), join(kv.second).c_str(), join(ow[kv.first]).c_str());
    mc::count("deliveries", got.size());
}
}
