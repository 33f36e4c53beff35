// P08 A shared subscription delivers each message to exactly one member.
#include "mqtt.h"
#include "model.h"
using namespace mc;
using namespace mq;
struct Mem { int qos; };
struct Group { const char *filter, *plain; bool shared; std::map<std::string, Mem> members; };
struct Pub { std::string topic, payload; int qos; std::vector<Group> groups; std::set<std::string> lossy; std::vector<std::pair<std::string, int>> got; };
static std::vector<Group> G() { return {{"$share/g/t/+", "t/+", true, {}}, {"$share/h/t/+", "t/+", true, {}}, {"$share/g/t/#", "t/#", true, {}}, {"t/+", "t/+", false, {}}, {"$share/g//x", "/x", true, {}}, {"$share/g/+/x", "+/x", true, {}}}; }
struct W {
    std::vector<Group> groups = G(); std::map<std::string, Cl> cl; std::map<std::string, bool> online, exists; std::vector<Pub> pubs; Cl p; int n = 0;
    void con(const std::string &id, bool clean)
    {
        Cl &c = cl[id]; c.o.clean = clean; c.o.props.clear(); c.rx.clear(); c.rbuf.clear();
        bool persistent = id != "C";
        if (c.v5() && persistent) c.o.props.push_back(pn(P_SESSEXP, 100000));
        bool keep = exists[id] && !clean && persistent && !(c.o.ver == 4 && c.o.clean);
        if (!keep) end(id);
        REQUIRE(c.connect(), "connect", "%s", id.c_str());
        REQUIRE(c.connack.sp == keep, "session-present", "session present %d", c.connack.sp);
        online[id] = exists[id] = true;
        drain();
    }
    void end(const std::string &id) { for (auto &g : groups) g.members.erase(id); for (auto &x : pubs) for (auto &g : x.groups) if (g.members.count(id)) x.lossy.insert(id); exists[id] = false; }
    void off(const std::string &id) { cl[id].close(); settle(); online[id] = false; if (id == "C") end(id); }
    void drain()
    {
        for (auto &kv : cl) if (online[kv.first]) for (auto &m : kv.second.publishes()) {
            bool f = false;
            for (auto &x : pubs) if (x.payload == m.payload) { f = true; REQUIRE(x.topic == m.topic, "topic", "wrong topic %s", m.topic.c_str()); x.got.push_back({kv.first, m.qos}); }
            REQUIRE(f, "unexpected", "%s received %s", kv.first.c_str(), m.txt().c_str());
            REQUIRE(!m.retain, "retain", "%s received %s with the retain flag", kv.first.c_str(), m.txt().c_str());
        }
    }
    // can the deliveries be explained by one member per group?
    static bool explain(const Pub &x, size_t gi, std::vector<std::pair<std::string, int>> &left, int missing_ok)
    {
        if (gi == x.groups.size()) return left.empty();
        const Group &g = x.groups[gi];
        if (!model::matches(g.plain, x.topic) || g.members.empty()) return explain(x, gi + 1, left, missing_ok);
        if (!g.shared) {
            std::vector<std::pair<std::string, int>> l = left;
            for (auto &m : g.members) { auto it = std::find(l.begin(), l.end(), std::make_pair(m.first, std::min(x.qos, m.second.qos))); if (it == l.end()) { if (!x.lossy.count(m.first)) return false; } else l.erase(it); }
            return explain(x, gi + 1, l, missing_ok);
        }
        for (auto &m : g.members) {
            auto l = left; auto it = std::find(l.begin(), l.end(), std::make_pair(m.first, std::min(x.qos, m.second.qos)));
            if (it != l.end()) { l.erase(it); if (explain(x, gi + 1, l, missing_ok)) return true; }
            if (x.lossy.count(m.first)) { auto l2 = left; if (explain(x, gi + 1, l2, missing_ok)) return true; } // its queue was lost with its session, or it is still offline
        }
        return false;
    }
    void judge(const char *when)
    {
        for (auto x : pubs) {
            for (auto &g : x.groups) for (auto &m : g.members) if (!online[m.first]) x.lossy.insert(m.first);
            auto l = x.got; std::string d; for (auto &k : l) d += k.first + ":q" + std::to_string(k.second) + " ";
            std::string gs; for (auto &g : x.groups) { if (!model::matches(g.plain, x.topic) || g.members.empty()) continue; gs += std::string(g.filter) + "{"; for (auto &m : g.members) gs += m.first + ":q" + std::to_string(m.second.qos) + " "; gs += "} "; }
            REQUIRE(explain(x, 0, l, 0), "one-member", "%s: message %s on %s (qos %d) with members %s was delivered to %s", when, x.payload.c_str(), x.topic.c_str(), x.qos, gs.c_str(), d.empty() ? "nobody" : d.c_str());
            count("judged");
        }
    }
    void publish(const char *t, int q, Cl *from = nullptr)
    {
        Pub x; x.topic = t; x.payload = "m" + std::to_string(n++); x.qos = q; x.groups = groups;
        note("publish %s on %s q%d", x.payload.c_str(), t, q);
        pubs.push_back(x);
        // what is QoS 0 for an offline member is not kept
        for (auto &g : pubs.back().groups) for (auto &m : g.members) if (!online[m.first] && std::min(q, m.second.qos) == 0) pubs.back().lossy.insert(m.first);
        REQUIRE((from ? *from : p).publish(t, x.payload, q), "publish", "not acknowledged");
        drain(); judge("after a publish");
    }
};
CHECK(P08, "")
{
    static const char *modes[] = {"round_robin", "sender_hash", "first"};
    int mode = choose(3, "targeting");
    Server srv; REQUIRE(srv.start(std::string("shared_subscription_targeting ") + modes[mode] + "\n"), "boot", "no start");
    W w; w.cl["A"] = Cl("A", 5); w.cl["B"] = Cl("B", 4); w.cl["C"] = Cl("C", 5); w.p = Cl("P", 5);
    w.cl["D"] = Cl("D", 4);
    REQUIRE(w.p.connect(), "connect", "P");
    REQUIRE(w.p.publish("t/a", "retained", 1, true) && w.p.publish("/x", "retained", 0, true), "publish", "retained");
    int part = choose(2, "part");
    w.con("A", false); w.con("B", false); w.con("C", true);
    note("%s", modes[mode]);
    auto sub = [&](const std::string &id, int g, int q) {
        note("%s subscribes %s q%d", id.c_str(), w.groups[g].filter, q); std::vector<int> rc;
        REQUIRE(w.cl[id].subscribe({{w.groups[g].filter, q, false, false, w.groups[g].shared ? 0 : 2}}, {}, &rc) && rc[0] == q, "suback", "not granted");
        w.groups[g].members[id] = {q}; };
    if (part == 0) { // who is a member, in which order they joined, who is there
        w.con("D", true);
        static const char *ids[] = {"A", "B", "C", "D"};
        int n = 1 + choose(4, "members"), g = choose(6, "group"); if (!w.groups[g].shared) prune();
        int rot = choose(4, "first"), leave = choose(5, "leaves"), how = choose(3, "how"), pq = choose(3, "qos");
        if (leave > n || (leave == 0 && how)) prune();
        for (int i = 0; i < n; i++) sub(ids[(i + rot) % 4], g, (i + 1) % 3);
        std::string lid; if (leave) lid = ids[(leave - 1 + rot) % 4];
        if (leave) {
            if (how == 0) { note("%s unsubscribes", lid.c_str()); REQUIRE(w.cl[lid].unsubscribe({w.groups[g].filter}), "unsuback", "no"); w.groups[g].members.erase(lid); }
            else if (how == 1) { note("%s drops", lid.c_str()); w.off(lid); if (lid == "D") w.end("D"); }
            else { note("%s clean start", lid.c_str()); w.con(lid, true); if (lid == "B") { w.groups[g].members.erase("B"); } }
        }
        const char *t = g == 4 || g == 5 ? "/x" : "t/a";
        for (int i = 0; i < 2 * n + 1; i++) w.publish(t, pq);
        if (n > 1 && w.cl[ids[rot]].o.ver >= 4 && w.online[ids[rot]]) w.publish(t, pq, &w.cl[ids[rot]]);
        advance(4000 * 1000ull); note("tables tidied");
        for (int i = 0; i < n; i++) w.publish(t, pq);
        if (leave && how == 0) { sub(lid, g, 2); for (int i = 0; i < 2 * n; i++) w.publish(t, pq); }
        // round robin gives every connected member its share
        for (auto &id : {"A", "B"}) if (w.exists[id] && !w.online[id]) w.con(id, false);
        w.drain(); w.judge("at the end");
        return;
    }
    int depth = param("depth", thorough() ? 6 : 4);
    sub("A", 0, 1);
    for (int d = 0; d < depth; d++) {
        int k = choose(15, "operation");
        auto needs = [&](const char *id) { if (!w.online[id]) prune(); };
        switch (k) {
        case 0: needs("B"); sub("B", 0, 2); break;
        case 1: needs("C"); sub("C", 0, 1); break;
        case 2: needs("A"); sub("A", 1, 2); break;
        case 3: needs("B"); sub("B", 2, 1); break;
        case 4: needs("C"); sub("C", 3, 2); break;
        case 5: needs("A"); if (!w.groups[0].members.count("A")) sub("A", 0, 2); else { note("A unsubscribes"); REQUIRE(w.cl["A"].unsubscribe({w.groups[0].filter}), "unsuback", "no"); w.groups[0].members.erase("A"); } break;
        case 6: needs("B"); if (!w.groups[0].members.count("B")) prune(); note("B unsubscribes"); REQUIRE(w.cl["B"].unsubscribe({w.groups[0].filter}), "unsuback", "no"); w.groups[0].members.erase("B"); break;
        case 7: note("A toggles"); if (w.online["A"]) w.off("A"); else w.con("A", false); break;
        case 8: note("B toggles"); if (w.online["B"]) w.off("B"); else w.con("B", false); break;
        case 9: note("C toggles"); if (w.online["C"]) w.off("C"); else w.con("C", true); break;
        case 10: note("A clean start"); w.con("A", true); break;
        case 11: w.publish("t/a", 2); break;
        case 12: w.publish("t/a/b", 1); break;
        case 13: needs("A"); w.publish("t/b", 1, &w.cl["A"]); break;
        case 14: if (d == 0) prune(); note("4000 s"); advance(4000 * 1000ull); w.drain(); break;
        }
    }
    w.publish("t/c", 2); w.publish("t/c", 2); w.publish("t/c", 0);
    for (auto &id : {"A", "B"}) if (w.exists[id] && !w.online[id]) w.con(id, false);
    w.drain(); w.judge("at the end");
    w.publish("t/d", 2); w.judge("at the end");
}
