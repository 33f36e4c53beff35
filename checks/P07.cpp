// P07 Wills are published exactly when they should be.
#include "mqtt.h"
#include "model.h"
using namespace mc;
using namespace mq;
static double now_s() { return sim::now_ns() / 1e9; }
struct WillM { std::string topic, payload; int qos; bool retain; uint32_t delay; };
struct Pend { WillM w; double early, late; bool ses; };
struct W {
    Cl o; std::shared_ptr<Cl> c; std::vector<std::shared_ptr<Cl>> old;
    bool exists = false, online = false; double off = 0; uint32_t exp = 0; std::optional<WillM> will; std::vector<Pend> pend; int n = 0; std::vector<std::string> owed; std::map<std::string, std::string> retained;
    static std::string key(const WillM &w) { return w.topic + "|" + w.payload + "|q" + std::to_string(w.qos) + (w.retain ? "|R" : ""); }
    void now(const WillM &w) { pend.push_back({w, 0, 0, false}); }
    void ended_conn(bool keepwill)
    {
        online = false; off = now_s();
        if (keepwill && will) {
            if (will->delay == 0 || exp == 0) now(*will);
            else pend.push_back({*will, off + std::min(will->delay, exp) - 1.001, off + std::min(will->delay + 4, exp + 13), true});
        }
        will.reset();
        if (exp == 0) exists = false;
    }
    void con(int v, bool clean, uint32_t e, std::optional<WillM> w)
    {
        auto x = std::make_shared<Cl>("W", v); x->o.clean = clean; if (v == 5 && e) x->o.props.push_back(pn(P_SESSEXP, e));
        if (v == 4) e = clean ? 0 : 1000000;
        if (w) { Will m; m.topic = w->topic; w->payload = m.payload = "w" + std::to_string(n++); m.qos = w->qos; m.retain = w->retain; if (w->delay) m.props.push_back(pn(P_WILLDELAY, w->delay)); x->o.will = m; }
        note("connect v%d %s expiry %u%s %s", v, clean ? "clean" : "resume", e, online ? " (takes over)" : "", w ? (key(*w) + " delay " + std::to_string(w->delay)).c_str() : "no will");
        bool was = online; auto prev = c; uint32_t oexp = exp;
        REQUIRE(x->connect(), "connect", "not accepted");
        bool sp = x->connack.sp; settle();
        if (was) {
            if (will) { if (will->delay == 0 || !sp) now(*will); will.reset(); }
            REQUIRE(prev->closed(), "takeover", "the old connection stays"); old.push_back(prev);
            REQUIRE(sp == (!clean && oexp != 0), "session-present", "session present %d", sp);
        } else {
            if (sp) pend.erase(std::remove_if(pend.begin(), pend.end(), [](const Pend &p) { return p.ses && now_s() < p.early; }), pend.end());
            for (auto &p : pend) if (p.ses) { if (!sp) { p.early = p.late = 0; } else p.early = 0, p.late = 1e18; } // published in the last moment, or cancelled
            if (clean || !exists) REQUIRE(!sp, "session-present", "session present");
        }
        c = x; online = exists = true; exp = e; will = w;
        check("after connecting");
        pend.erase(std::remove_if(pend.begin(), pend.end(), [](const Pend &p) { return p.ses; }), pend.end());
    }
    void check(const char *when)
    {
        std::vector<std::string> got; for (auto &p : o.publishes()) { WillM m{p.topic, p.payload, p.qos, p.retain, 0}; got.push_back(key(m)); if (p.retain) retained[p.topic] = p.payload; }
        double t = now_s();
        for (auto it = pend.begin(); it != pend.end();) {
            auto g = std::find(got.begin(), got.end(), key(it->w));
            if (g != got.end()) { REQUIRE(t >= it->early, "early", "%s: will %s was published before its time", when, g->c_str()); got.erase(g); it = pend.erase(it); continue; }
            REQUIRE(t <= it->late, "will-lost", "%s: will %s was not published", when, key(it->w).c_str());
            ++it;
        }
        REQUIRE(got.empty(), "will-unexpected", "%s: unexpected publish %s", when, got[0].c_str());
        REQUIRE(!online || !c->closed(), "closed", "the connection was closed");
    }
};
static const WillM W1{"w/a", "", 1, false, 0}, W2{"w/b", "", 2, true, 0}, D10{"w/a", "", 1, false, 10}, D20{"w/b", "", 0, true, 20};
// every way a connection can end, with every kind of will
static void matrix()
{
    Server srv; REQUIRE(srv.start(), "boot", "no start");
    W w; w.o = Cl("O", 5); REQUIRE(w.o.connect(), "connect", "O"); REQUIRE(w.o.subscribe({{"w/#", 2, false, true, 0}}), "suback", "O");
    int v = 3 + choose(3, "version"), q = choose(3, "qos"), r = choose(2, "retain"), delay = v == 5 ? choose(3, "delay") : 0; static const uint32_t ds[] = {0, 6, 0xFFFFFFFF};
    int e = v == 5 ? choose(3, "expiry") : 0; static const uint32_t es[] = {0, 12, 100000};
    int how = choose(12, "how it ends"), empty = choose(2, "empty payload");
    Cl c("W", v); c.o.clean = true; if (es[e]) c.o.props.push_back(pn(P_SESSEXP, es[e]));
    Will m; m.topic = "w/x"; m.payload = empty ? "" : std::string("a\0\xff", 3); m.qos = q; m.retain = r; if (ds[delay]) m.props.push_back(pn(P_WILLDELAY, ds[delay]));
    m.props.push_back(pu("k", "v")); if (v < 5) m.props.clear();
    c.o.will = m; c.o.keepalive = how == 3 ? 10 : v == 5 ? 60000 : 0;
    REQUIRE(c.connect(), "connect", "W");
    note("v%d q%d r%d delay %u expiry %u end %d", v, q, r, ds[delay], es[e], how);
    bool expect = true; uint32_t exp = v == 5 ? es[e] : 0;
    Cl kicker("W", 4); kicker.o.clean = true;
    switch (how) {
    case 0: c.close(); break;
    case 1: c.close(true); break;
    case 2: c.raw(publish(v, "a/#", "x", 0)); break;                      // protocol error: wildcard in the topic
    case 3: advance(40000); break;                                          // silence
    case 4: c.raw(disconnect(v)); expect = false; break;
    case 5: if (v < 5) prune(); c.raw(disconnect(v, 0)); expect = false; break;
    case 6: if (v < 5) prune(); c.raw(disconnect(v, 4)); break;
    case 7: if (v < 5 || !exp) prune(); c.raw(disconnect(v, 4, {pn(P_SESSEXP, 0)})); exp = 0; break;
    case 8: if (v < 5 || !exp) prune(); c.raw(disconnect(v, 0, {pn(P_SESSEXP, 50)})); expect = false; break;
    case 9: c.raw(connect(c.o)); break;                                     // second CONNECT
    case 10: kicker.connect(); exp = 0; break;                              // takeover that ends the session
    case 11: c.raw(std::string("\xff\x00", 2)); break;                      // malformed
    }
    settle();
    REQUIRE(c.closed(), "not-closed", "the connection stays open");
    double t0 = now_s(), due = how == 3 ? -1.0 : exp == 0 ? 0.0 : std::min(ds[delay], exp);
    bool got = false;
    auto look = [&]() {
        for (auto &p : w.o.publishes()) {
            REQUIRE(expect, "will-unexpected", "the will was published");
            REQUIRE(!got, "will-twice", "the will was published twice");
            REQUIRE(due < 0 || now_s() - t0 >= due - 1.001, "early", "the will came after %.1f s instead of %.1f", now_s() - t0, due);
            got = true;
            REQUIRE(p.topic == m.topic && p.payload == m.payload && p.qos == q && p.retain == (r != 0), "will-content", "the will arrived as %s", p.txt().c_str());
            if (v == 5) { const Prop *u = find(p.props, P_USER); REQUIRE(u && u->s == "k" && u->s2 == "v", "will-props", "user property lost"); }
        }
    };
    look();
    static const int ws[] = {1000, 2000, 2000, 4000, 8000, 10000, 20000, 60000};
    for (int d : ws) { advance(d); look(); if (expect && due >= 0 && !got) REQUIRE(now_s() - t0 < due + (due && exp <= ds[delay] ? 13 : 4), "will-lost", "the will did not come in %.1f s", now_s() - t0); }
    if (expect && (due >= 0 && due < 80)) REQUIRE(got, "will-lost", "the will was not published");
    if (how == 3) { advance(40000); look(); if (!exp || ds[delay] < 100 || exp < 100) REQUIRE(got, "will-lost", "the will was not published after silence"); }
    Cl z("Z", 4); REQUIRE(z.connect() && z.subscribe({{"#", 2}}), "connect", "Z");
    advance(500);
    auto rt = z.publishes();
    bool want = got && r && !empty;
    REQUIRE(rt.size() == (want ? 1 : 0), "will-retained", "%zu retained messages", rt.size());
    if (want) REQUIRE(rt[0].payload == m.payload && rt[0].topic == m.topic, "will-retained", "retained will is %s", rt[0].txt().c_str());
    REQUIRE(w.o.ping(), "observer", "observer lost");
}
CHECK(P07, "")
{
    if (choose(2, "part") == 0) { matrix(); return; }
    Server srv; REQUIRE(srv.start(), "boot", "no start");
    W w; w.o = Cl("O", 5); REQUIRE(w.o.connect(), "connect", "O"); REQUIRE(w.o.subscribe({{"w/#", 2, false, true, 0}}), "suback", "O");
    int depth = param("depth", thorough() ? 7 : 5);
    for (int d = 0; d < depth; d++) {
        int k = choose(13, "operation");
        if (d == 0 && k > 6) prune();
        switch (k) {
        case 0: w.con(4, true, 0, W1); break;
        case 1: w.con(4, false, 0, W2); break;
        case 2: w.con(5, false, 100, D10); break;
        case 3: w.con(5, false, 6, D20); break;
        case 4: w.con(5, false, 0, D10); break;
        case 5: w.con(5, false, 100, {}); break;
        case 6: w.con(5, true, 100, D20); break;
        case 7: if (!w.online) prune(); note("drops"); w.c->close(); settle(); w.ended_conn(true); break;
        case 8: if (!w.online) prune(); note("DISCONNECT"); w.c->disconnect(); w.ended_conn(false); break;
        case 9: if (!w.online || !w.c->v5()) prune(); note("DISCONNECT with will"); w.c->disconnect(4); w.ended_conn(true); break;
        case 10: if (!w.online) prune(); note("protocol error"); w.c->raw(std::string("\x30\x00", 2)); settle(); w.ended_conn(true); break;
        case 11: note("5 s"); advance(5000); break;
        case 12: note("17 s"); advance(17000); break;
        }
        w.check("after an operation");
    }
    if (w.online) { w.c->close(); settle(); w.ended_conn(true); w.check("after the last drop"); }
    for (int i = 0; i < 4; i++) { advance(10000); w.check("waiting for the rest"); }
    REQUIRE(w.pend.empty(), "will-lost", "a will was never published");
    Cl z("Z", 4); REQUIRE(z.connect() && z.subscribe({{"#", 2}}), "connect", "Z"); advance(500);
    std::map<std::string, std::string> r; for (auto &p : z.publishes()) r[p.topic] = p.payload;
    REQUIRE(r == w.retained, "will-retained", "retained wills differ");
}
