// P06 Sessions live exactly as long as the protocol says.
#include "mqtt.h"
#include "model.h"
using namespace mc;
using namespace mq;
static double now_s() { return sim::now_ns() / 1e9; }
struct W {
    Cl p; std::shared_ptr<Cl> c; std::vector<std::shared_ptr<Cl>> old; bool exists = false, online = false, subscribed = false; double off = 0; uint32_t exp = 0; int ver = 4; std::vector<std::string> queue; int n = 0;
    void ended() { exists = false; subscribed = false; queue.clear(); }
    void con(int v, bool clean, uint32_t e)
    {
        note("connect v%d %s expiry %u%s", v, clean ? "clean" : "resume", e, online ? " (takes over)" : "");
        auto prev = online ? c : nullptr;
        auto x = std::make_shared<Cl>("S", v); x->o.clean = clean; if (v == 5 && e) x->o.props.push_back(pn(P_SESSEXP, e));
        int must = -1; // session present: 0, 1 or -1 for either
        if (v == 4 && !clean) e = 60; else if (v == 4) e = 0;
        if (!exists || clean) must = 0;
        else if (online) must = exp == 0 ? 0 : 1;
        else { double t = now_s() - off; must = exp == 0 ? 0 : t < exp - 1.001 ? 1 : t > exp + 12 ? 0 : -1; }
        REQUIRE(x->connect(), "connect", "not accepted");
        bool sp = x->connack.sp;
        if (must >= 0) REQUIRE(sp == (must == 1), "session-present", "session present is %d; the session %s%s", sp, exists ? "exists" : "does not exist", exists && !online ? (", offline for " + std::to_string(now_s() - off) + " s of " + std::to_string(exp)).c_str() : "");
        if (v == 5) { const Prop *q = find(x->connack.props, P_SESSEXP); uint32_t want = std::min<uint32_t>(e, 60); if (q) REQUIRE(q->num == want, "expiry-told", "told session expiry %u", q->num); else REQUIRE(e <= 60, "expiry-told", "the capped session expiry is not told"); }
        if (prev) { settle(); prev->pump(); REQUIRE(prev->closed(), "takeover", "the old connection stays"); auto d = prev->pop(DISCONNECT); if (prev->v5()) REQUIRE(d && d->rc == 0x8e, "takeover-reason", "no DISCONNECT with 'session taken over'"); old.push_back(prev); }
        if (!sp) ended();
        c = x; exists = online = true; exp = std::min<uint32_t>(e, 60); ver = v;
        auto got = c->publishes();
        std::vector<std::string> g; for (auto &m : got) g.push_back(m.payload);
        REQUIRE(g == queue, "queued", "after connecting received [%s] instead of [%s]", model::join(g).c_str(), model::join(queue).c_str());
        queue.clear();
    }
    void leave(bool normal, int e)
    {
        if (normal) c->disconnect(-1, e >= 0 ? Props{pn(P_SESSEXP, e)} : Props{}); else { c->close(); settle(); }
        if (e >= 0) exp = std::min(e, 60);
        online = false; off = now_s(); if (exp == 0) ended();
    }
    void publish()
    {
        std::string pl = "m" + std::to_string(n++);
        bool maybe = exists && !online && now_s() - off > exp - 1.001;
        if (maybe) { note("(not publishing: the session may or may not exist)"); return; }
        note("P publishes %s", pl.c_str());
        REQUIRE(p.publish("t", pl, 1), "publish", "not acknowledged");
        if (!exists || !subscribed) { if (online) { auto k = c->pop(); if (k) fail("ghost", "received %s without a subscription", k->txt().c_str()); } return; }
        if (!online) { queue.push_back(pl); return; }
        auto g = c->publishes(); REQUIRE(g.size() == 1 && g[0].payload == pl, "delivery", "the connected subscriber received %zu messages", g.size());
    }
};
CHECK(P06, "")
{
    Server srv; REQUIRE(srv.start("expire_sessions_after_seconds 60\n"), "boot", "no start");
    W w; w.p = Cl("P", 4); REQUIRE(w.p.connect(), "connect", "P");
    Cl other("T", 4); // somebody else with the same subscription
    if (choose(2, "part") == 0) { // every expiry interval around the cap, ended in every way, looked at around its end
        static const uint32_t es[] = {0, 1, 5, 59, 60, 61, 0xFFFFFFFFu};
        uint32_t e = es[choose(7, "expiry")]; int how = choose(4, "end");
        w.con(5, choose(2, "clean"), e); REQUIRE(w.c->subscribe({{"t", 1}}), "suback", "no SUBACK"); w.subscribed = true;
        if (how >= 2 && e == 0) prune();
        note("end %d", how);
        w.leave(how != 0, how == 2 ? 1 : how == 3 ? 100 : -1);
        w.publish();
        int wait = choose(6, "wait"); static const int ws[] = {0, 3, 40, 57, 73, 200};
        advance(ws[wait] * 1000ull); note("%d s", ws[wait]);
        w.con(4 + choose(2, "version"), false, 5);
        w.publish();
        return;
    }
    int depth = param("depth", thorough() ? 7 : 5);
    for (int d = 0; d < depth; d++) {
        int k = choose(13, "operation");
        if (d == 0 && (k > 4)) prune();
        switch (k) {
        case 0: w.con(4, false, 0); break;
        case 1: w.con(4, true, 0); break;
        case 2: w.con(5, false, 0); break;
        case 3: w.con(5, false, 20); break;
        case 4: w.con(5, true, 20); break;
        case 5: if (!w.online) prune(); note("drops"); w.leave(false, -1); break;
        case 6: if (!w.online) prune(); note("DISCONNECT"); w.leave(true, -1); break;
        case 7: if (!w.online || w.ver < 5) prune(); note("DISCONNECT expiry 0"); w.leave(true, 0); break;
        case 8: if (!w.online || w.ver < 5 || w.exp == 0) prune(); note("DISCONNECT expiry 35"); w.leave(true, 35); break;
        case 9: if (!w.online || w.subscribed) prune(); note("subscribes"); REQUIRE(w.c->subscribe({{"t", 1}}), "suback", "no SUBACK"); w.subscribed = true; break;
        case 10: w.publish(); break;
        case 11: if (w.online) prune(); note("13 s"); advance(13000); break;
        case 12: if (w.online) prune(); note("43 s"); advance(43000); break;
        }
        if (w.online) REQUIRE(!w.c->closed(), "closed", "the connection was closed");
    }
    w.publish();
    if (!w.online) { note("18 s"); advance(18000); }
    w.con(w.ver, false, 20);
    w.publish();
    w.leave(false, -1);
    advance(3000); w.publish(); w.con(w.ver, false, 20); w.publish();
}
