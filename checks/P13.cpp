// P13 State saved at shutdown is restored at start.
#include "mqtt.h"
#include "model.h"
#include <cstring>
using namespace mc;
using namespace mq;
static const char *CONF = "storage_dir /mcfs/store\n";
struct Sub { const char *key, *filter; int qos; bool nl, rap; uint32_t id; };
static const Sub SUBS[] = {{"t/a", "t/a", 2, false, false, 7}, {"$share/g/t/+", "t/+", 1, false, true, 99}, {"#", "#", 1, true, true, 268435455}, {"$SYS/broker/clients/total", "$SYS/broker/clients/total", 1, false, false, 0}};
struct Out { std::string topic, payload; int qos; bool retain; uint32_t subid; int st = 0; unsigned id = 0;
    std::string key() const { return topic + "|" + payload + "|q" + std::to_string(qos) + (retain ? "|R" : "") + "|s" + std::to_string(subid); } };
struct World {
    Server srv; Cl a, b, p; bool aon = false, bon = false, asub[4] = {}, held = false, will = false, inc = false; int n = 0;
    std::vector<Out> out; std::vector<std::string> bexp; std::map<std::string, std::pair<std::string, int>> ret;
    static Out of(const Pkt &k) { Out o{k.topic, k.payload, k.qos, k.retain, 0}; for (auto &x : k.props) if (x.id == P_SUBID) o.subid = x.num; return o; }
    std::vector<Out> fresh; // what A must get now
    void drain(const char *when)
    {
        std::vector<Pkt> v; for (auto &k : a.all()) { if (k.type == PUBLISH && k.topic[0] == '$') { if (k.qos) a.raw(ack(5, PUBACK, k.id)); settle(); } else v.push_back(k); }
        auto list = [](const std::vector<Out> &l) { std::string s; for (auto &o : l) s += "{" + o.key() + "}"; return s; };
        std::vector<Out> got; for (auto &k : v) { REQUIRE(k.type == PUBLISH, "unexpected", "%s: A got %s", when, k.txt().c_str()); got.push_back(of(k)); got.back().id = k.id; }
        std::vector<Out> want = fresh; fresh.clear();
        for (auto &g : got) {
            auto it = std::find_if(want.begin(), want.end(), [&](const Out &o) { return o.key() == g.key() && (!o.id || o.id == g.id); });
            if (it == want.end()) { for (auto &o : want) if (o.key() == g.key()) fail("id-changed", "%s: message %s came with id %u instead of %u", when, g.key().c_str(), g.id, o.id); fail("extra", "%s: A got %s, expected %s", when, g.key().c_str(), list(want).c_str()); }
            if (g.qos) {
                Out *mine = nullptr; for (auto &o : out) if (!mine && o.key() == g.key() && (o.id == g.id || (!o.id && !it->id))) mine = &o;
                REQUIRE(mine, "extra", "%s: %s", when, g.key().c_str());
                for (auto &o : out) if (&o != mine && o.id) REQUIRE(o.id != g.id, "id-in-use", "%s: message %s got id %u, which %s still uses", when, g.key().c_str(), g.id, o.key().c_str());
                mine->id = g.id;
            }
            want.erase(it);
        }
        REQUIRE(want.empty(), "lost", "%s: A did not get %s", when, list(want).c_str());
        count("messages", got.size());
    }
    void give(const Out &o) { if (o.qos) out.push_back(o); if (aon) fresh.push_back(o); }
    void route(const std::string &topic, const std::string &pl, int q, bool retain, const char *from)
    {
        if (retain) { if (pl.empty()) ret.erase(topic); else ret[topic] = {pl, q}; }
        for (int i = 0; i < 4; i++) if (asub[i] && model::matches(SUBS[i].filter, topic) && !(SUBS[i].nl && !strcmp(from, "A"))) give({topic, pl, std::min(q, SUBS[i].qos), retain && SUBS[i].rap, SUBS[i].id});
        if (bon || q) bexp.push_back(topic + "|" + pl + "|" + std::to_string(std::min(q, 1)));
    }
    void bcheck(const char *when)
    {
        if (!bon) return; std::vector<std::string> got; for (auto &k : b.publishes()) got.push_back(k.topic + "|" + k.payload + "|" + std::to_string(k.qos));
        std::sort(got.begin(), got.end()); auto w = bexp; std::sort(w.begin(), w.end()); REQUIRE(got == w, "bystander", "%s: B got %s instead of %s", when, model::join(got).c_str(), model::join(w).c_str()); bexp.clear();
    }
    void aup(bool w = false)
    {
        a.rx.clear(); a.rbuf.clear(); a.o.clean = false; a.o.props = {pn(P_SESSEXP, 5000)}; a.o.will.reset(); if (w) a.o.will = Will{"w/x", "gone", 1, false, {pn(P_WILLDELAY, 100)}};
        REQUIRE(a.connect(), "connect", "A"); REQUIRE(a.connack.sp == (n++ > 0), "session-present", "A: session present %d", a.connack.sp); aon = true; will = w;
        std::set<unsigned> rel; for (auto &o : out) if (o.st == 1) rel.insert(o.id); else fresh.push_back(o);
        a.pump(); std::deque<Pkt> rest; for (auto &k : a.rx) if (k.type == PUBREL) REQUIRE(rel.erase(k.id), "pubrel", "PUBREL for %u", k.id); else rest.push_back(k);
        a.rx = rest; REQUIRE(rel.empty(), "pubrel-lost", "no PUBREL for %u after reconnecting", *rel.begin());
        drain("reconnect");
    }
    void bup() { b.rx.clear(); b.rbuf.clear(); b.o.clean = false; REQUIRE(b.connect(), "connect", "B"); bon = true; bcheck("B reconnects"); }
    void pup() { p.rx.clear(); p.rbuf.clear(); REQUIRE(p.connect(), "connect", "P"); }
    void boot()
    {
        a = Cl("A", 5); b = Cl("B", 4); p = Cl("P", 5); REQUIRE(srv.start(CONF), "boot", "no start"); pup(); aup(); b.o.clean = false; REQUIRE(b.connect() && b.subscribe({{"t/#", 1}, {"x/#", 1}, {"w/#", 1}}), "connect", "B"); bon = true;
    }
    void complete(Out &o)
    {
        if (o.qos == 1) { a.raw(ack(5, PUBACK, o.id)); settle(); return; }
        if (o.st == 0) { a.raw(ack(5, PUBREC, o.id)); settle(); auto k = a.pop(PUBREL); REQUIRE(k && k->id == o.id, "pubrel", "PUBREC for %u isn't answered", o.id); }
        a.raw(ack(5, PUBCOMP, o.id)); settle();
    }
    void restart(int down)
    {
        note("restart, down for %d s", down); REQUIRE(srv.stop(), "stop", "no clean exit"); advance(down * 1000ull); a.close(); b.close(); p.close(); aon = bon = false; fresh.clear();
        REQUIRE(srv.start(CONF), "boot", "no restart"); pup();
    }
    bool publish(const std::string &t, int q, bool r = false, bool empty = false)
    {
        std::string pl = empty ? "" : "m" + std::to_string(n++); note("P publishes %s '%s' q%d%s", t.c_str(), pl.c_str(), q, r ? " retained" : "");
        REQUIRE(p.publish(t, pl, q, r), "publish", "not acknowledged"); route(t, pl, q, r, "P"); if (aon) drain("publish"); bcheck("publish"); return true;
    }
    bool toggle_sub(int i)
    {
        if (!aon) return false; asub[i] = !asub[i]; const Sub &s = SUBS[i];
        note("A %s %s", asub[i] ? "subscribes" : "unsubscribes", s.key);
        if (!asub[i]) { REQUIRE(a.unsubscribe({s.key}), "unsuback", "no"); return true; }
        Filter f; f.f = s.key; f.qos = s.qos; f.nl = s.nl; f.rap = s.rap; REQUIRE(a.subscribe({f}, s.id ? Props{pn(P_SUBID, s.id)} : Props()), "suback", "no");
        if (s.key[1] != 's') for (auto &r : ret) if (model::matches(s.filter, r.first)) give({r.first, r.second.first, std::min(r.second.second, s.qos), true, s.id});
        advance(60); drain("subscribe"); return true;
    }
    bool act(int k)
    {
        switch (k) {
        case 0: case 1: case 2: case 3: return toggle_sub(k);
        case 4: return publish("t/a", 1);
        case 5: return publish("t/b", 2);
        case 6: return publish("t/a", 2, true);
        case 7: return ret.count("t/a") && publish("t/a", 1, true, true);
        case 8: if (aon) { note("A goes"); a.close(); settle(); aon = false; } else { note("A comes"); aup(); } return true;
        case 9: { if (!aon || out.empty()) return false; note("A completes everything"); for (auto &o : out) complete(o); out.clear(); return true; }
        case 10: { if (!aon) return false; for (auto &o : out) if (o.qos == 2 && o.st == 0) { note("A sends PUBREC %u", o.id); a.raw(ack(5, PUBREC, o.id)); settle(); auto r = a.pop(PUBREL); REQUIRE(r && r->id == o.id, "pubrel", "PUBREC for %u isn't answered", o.id); o.st = 1; return true; } return false; }
        case 11: if (!aon) return false; note("A publishes QoS 2, id 9%s", inc ? " again" : ""); a.raw(mq::publish(5, "x/y", "in", 2, 9, false, inc)); settle(); { auto r = a.pop(PUBREC); REQUIRE(r && r->id == 9, "pubrec", "no PUBREC"); } if (!inc) route("x/y", "in", 2, false, "A"); inc = true; drain("own publish"); bcheck("A's publish"); return true;
        case 12: if (!aon || !inc) return false; note("A releases 9"); a.raw(ack(5, PUBREL, 9)); settle(); { auto r = a.pop(PUBCOMP); REQUIRE(r && r->id == 9, "pubcomp", "no PUBCOMP"); } inc = false; return true;
        case 13: if (bon) { note("B goes"); b.close(); settle(); bon = false; } else { note("B comes"); bup(); } return true;
        case 14: restart(5); return true;
        case 15: if (aon && will) return false; if (aon) { a.close(); settle(); aon = false; } note("A comes with a will"); aup(true); return true;
        }
        return false;
    }
    void probe()
    {
        bool back = !will || choose(2, "A comes back");
        if (!bon) bup();
        if (!back) { note("A stays away"); advance(150000, 1000); bexp.push_back("w/x|gone|1"); bcheck("will"); will = false; }
        if (!aon) aup();
        if (inc) act(11); // still known
        publish("t/a", 2); publish("t/c", 1); publish("x", 1); publish("x/y", 2);
        if (asub[3]) { advance(11000); a.pump(); bool got = false; for (auto &k : a.rx) got |= k.type == PUBLISH && k.topic == "$SYS/broker/clients/total"; REQUIRE(got, "sys-lost", "the subscription to $SYS/broker/clients/total is gone"); drain("$SYS"); }
        act(9); if (inc) act(12); 
        Cl f("F", 4); REQUIRE(f.connect() && f.subscribe({{"#", 2}}), "connect", "F"); advance(60); std::map<std::string, std::pair<std::string, int>> got; for (auto &k : f.publishes()) { REQUIRE(k.retain, "retain", "flag"); got[k.topic] = {k.payload, k.qos}; }
        REQUIRE(got == ret, "retained", "%zu retained messages instead of %zu", got.size(), ret.size());
        act(8); aup(); // nothing outstanding any more
        advance(120000, 1000); bcheck("end"); drain("end"); // no will
    }
};
static void sequences()
{
    World w; w.boot(); int init = choose(5, "initial");
    if (init >= 1) { w.act(0); w.act(2); }
    if (init == 2) { w.act(5); w.act(4); }
    if (init == 3) { w.act(1); w.act(6); w.act(10); w.act(8); }
    if (init == 4) { w.act(15); w.act(5); }
    note("--"); int d = param("depth", thorough() ? 4 : 3); for (int i = 0; i < d; i++) { int k = choose(17, "op"); if (k == 16) break; if (!w.act(k)) prune(); op(); }
    w.restart(5); if (thorough() && choose(2, "twice")) w.restart(1); w.probe();
}
// session expiry continues over the restart
static void expiry()
{
    int e = (int[]){100, 1000, 0}[choose(3, "expiry")], before = (int[]){0, 40, 90, 99}[choose(4, "before")], down = (int[]){0, 5, 50, 110, 900}[choose(5, "down")], after = (int[]){0, 45, 115, 880, 1100}[choose(5, "after")]; bool online = before == 0 && choose(2, "connected at shutdown");
    Server s; REQUIRE(s.start(CONF), "boot", "no start"); Cl a("A", 5); a.o.clean = false; a.o.props = {pn(P_SESSEXP, e)}; REQUIRE(a.connect() && a.subscribe({{"t", 1}}), "connect", "A"); note("expiry %d, %d s, down %d s, %d s%s", e, before, down, after, online ? ", connected at shutdown" : "");
    if (!online) { a.close(); settle(); advance(before * 1000, 1000); } uint64_t t0 = sim::now_ns(); REQUIRE(s.stop(), "stop", "no exit"); a.close(); advance(down * 1000 + 10); REQUIRE(s.start(CONF), "boot", "no restart"); advance(after * 1000, 1000);
    int64_t el = (sim::now_ns() - t0) / 1000000000ull + before; Cl c("A", 5); c.o.clean = false; c.o.props = {pn(P_SESSEXP, e)}; REQUIRE(c.connect(), "connect", "A"); count(c.connack.sp ? "present" : "gone");
    if (e == 0 || el > e + 14) REQUIRE(!c.connack.sp, "expired", "session with expiry %d is still there after %lld s", e, (long long)el);
    else if (el < e - 3) REQUIRE(c.connack.sp, "session-lost", "session with expiry %d is gone after %lld s", e, (long long)el);
}
// which data is saved
static void modes()
{
    int m = choose(8, "saved"); const char *names[] = {"retained_messages", "sessions_and_subscriptions", "bridge_info"}; std::string v = "all"; if (m && choose(2, "form")) { v.clear(); for (int i = 0; i < 3; i++) if (m >> i & 1) v += std::string(v.empty() ? "" : " ") + names[i]; } else for (int i = 0; i < 3; i++) if (!(m >> i & 1)) v += std::string(" !") + names[i];
    std::string conf = std::string(CONF) + "persistence_data_to_save " + v + "\n"; Server s; REQUIRE(s.start(conf), "boot", "no start with %s", v.c_str()); note("saving %s", v.c_str());
    Cl a("A", 4), p("P", 4); a.o.clean = false; REQUIRE(a.connect() && a.subscribe({{"t/#", 1}}) && p.connect(), "connect", "A"); a.close(); settle(); REQUIRE(p.publish("t/a", "x", 1, true), "publish", "no");
    for (int i = 0; i < 2; i++) { REQUIRE(s.stop(), "stop", "no exit"); REQUIRE(s.start(conf), "boot", "no restart"); }
    Cl c("A", 4), f("F", 4); c.o.clean = false; REQUIRE(c.connect() && f.connect() && f.subscribe({{"#", 1}}), "connect", "again"); advance(60);
    auto r = c.publishes(), g = f.publishes(); bool ses = m & 2, ret = m & 1; REQUIRE(c.connack.sp == ses && r.size() == ses, "sessions", "saving %s: session %d, %zu messages", v.c_str(), c.connack.sp, r.size()); REQUIRE(g.size() == ret, "retained", "saving %s: %zu retained", v.c_str(), g.size());
}
// packet identifiers still in use after a restart aren't given to others, and limits hold
static void identifiers()
{
    int ver = 4 + choose(2, "version"), q = 1 + choose(2, "qos"); bool online = choose(2, "sent");
    Server s; REQUIRE(s.start(std::string(CONF) + "max_qos_msg_pending_per_client 40\n"), "boot", "no start"); Cl a("A", ver), p("P", 4); a.o.clean = false; if (ver == 5) a.o.props = {pn(P_SESSEXP, 50000)}; REQUIRE(a.connect() && a.subscribe({{"t", 2}}) && p.connect(), "connect", "A");
    if (!online) { a.close(); settle(); } std::set<unsigned> used; for (int i = 0; i < 3; i++) p.publish("t", "first" + std::to_string(i), q);
    if (online) { a.pump(); for (auto &k : a.rx) if (k.type == PUBLISH) used.insert(k.id); if (q == 2) { a.raw(ack(ver, PUBREC, *used.begin())); settle(); } }
    REQUIRE(s.stop(), "stop", "no exit"); a.close(); p.close(); REQUIRE(s.start(std::string(CONF) + "max_qos_msg_pending_per_client 40\n"), "boot", "no restart"); p.rbuf.clear(); p.rx.clear(); REQUIRE(p.connect(), "connect", "P");
    note("MQTT %d, QoS %d, %s", ver, q, online ? "sent" : "queued");
    if (choose(2, "then") == 0) { // the limit on offline messages
        for (int i = 0; i < 60; i++) p.publish("t", "m", q);
        a.rx.clear(); a.rbuf.clear(); REQUIRE(a.connect() && a.connack.sp, "connect", "A"); a.pump(); size_t n = 0; for (auto &k : a.rx) n += k.type == PUBLISH; count("kept", n);
        REQUIRE(n >= 30 && n <= 41, "limit", "%zu messages kept for an offline client with at most 40", n); return;
    }
    a.rx.clear(); a.rbuf.clear(); REQUIRE(a.connect() && a.connack.sp, "connect", "A"); a.pump(); std::set<unsigned> now; for (auto &k : a.rx) if (k.type == PUBLISH || k.type == PUBREL) REQUIRE(now.insert(k.id).second, "id-in-use", "id %u twice", k.id);
    REQUIRE(now.size() == 3 && (!online || now == used), "lost", "%zu outstanding", now.size()); a.rx.clear(); a.c->in.clear();
    for (int i = 0; i < 66000; i += 20) { p.next_id = 1; for (int j = 0; j < 20; j++) p.pub("t", "m", 1); settle(); p.rx.clear(); p.rbuf.clear(); sim::take(p.c); a.pump(); size_t n = 0; std::string acks; for (auto &k : a.rx) if (k.type == PUBLISH) { n++; REQUIRE(!now.count(k.id), "id-in-use", "id %u, which is still in use, is given to another message", k.id); acks += ack(ver, PUBACK, k.id); } a.rx.clear(); REQUIRE(n == 20, "lost", "%zu of 20 after %d", n, i); a.raw(acks); settle(); }
    count("wrapped");
}
CHECK(P13, "")
{
    switch (choose(4, "part")) { case 0: sequences(); break; case 1: expiry(); break; case 2: modes(); break; case 3: identifiers(); break; }
}
