// P05 An inbound QoS 2 publish is forwarded exactly once.
#include "broker.h"
using namespace mc;
using namespace mq;
using namespace model;
CHECK(P05, "")
{
    sim::fs::mkdir("/mcfs"); sim::fs::put("/mcfs/acl", "topic readwrite t\ntopic read d\n");
    Server srv; REQUIRE(srv.start("mosquitto_acl_file /mcfs/acl\n"), "boot", "no start");
    int pv = 3 + choose(3, "publisher version");
    std::set<unsigned> open;
    Broker b; Cl p("P", pv), l("L", 4), o("O", 5);
    auto con = [&](Cl &c, bool clean, uint64_t exp) { c.o.clean = clean; c.o.props.clear(); if (c.v5() && exp) c.o.props.push_back(pn(P_SESSEXP, exp)); bool sp = b.connect(c.o.id, c.o.ver, clean, exp); REQUIRE(c.connect(), "connect", "%s", c.name.c_str()); REQUIRE(c.o.ver == 3 || c.connack.sp == sp, "session-present", "session present %d", c.connack.sp); if (&c == &p && !sp) open.clear(); };

    con(p, false, 1000); con(l, true, 0); con(o, false, 1000);
    REQUIRE(l.subscribe({{"#", 2}}), "suback", "L"); b.subscribe("L", {"#", 2});
    REQUIRE(o.subscribe({{"t", 1}}), "suback", "O"); b.subscribe("O", {"t", 1});
    o.close(); settle(); b.offline("O");
    bool online = true; int n = 0;
    static const unsigned ids[] = {1, 65535};
    auto pubs = [&](unsigned id, bool dup, const char *topic, bool retain = false) {
        std::string pl = "m" + std::to_string(n++); note("PUBLISH %u%s %s %s", id, dup ? " DUP" : "", topic, pl.c_str());
        bool denied = std::string(topic) == "d", fresh = !open.count(id);
        p.raw(mq::publish(pv, topic, pl, 2, id, retain, dup)); settle();
        auto a = p.pop(); REQUIRE(a && a->type == PUBREC && a->id == id, "pubrec", "PUBLISH %u answered with %s", id, a ? a->txt().c_str() : "nothing");
        if (pv == 5) { bool err = denied && fresh; REQUIRE((a->rc >= 0x80) == err, "pubrec-code", "PUBREC code %d", a->rc); }
        if (fresh && !denied) b.publish("P", topic, pl, 2, retain);
        if (fresh && !(denied && pv == 5)) open.insert(id);
    };
    auto check = [&]() { auto k = p.pop(); if (k) fail("unexpected", "publisher got %s", k->txt().c_str()); REQUIRE(!online || !p.closed(), "closed", "publisher was disconnected"); compare("exactly-once", l, b, "the subscriber"); };
    auto rel = [&](unsigned id) {
        note("PUBREL %u", id);
        p.raw(ack(pv, PUBREL, id)); settle();
        auto a = p.pop(); REQUIRE(a && a->type == PUBCOMP && a->id == id, "pubcomp", "PUBREL %u answered with %s", id, a ? a->txt().c_str() : "nothing");
        if (pv == 5) REQUIRE((a->rc == 0x92) == !open.count(id), "pubcomp-code", "PUBCOMP code %d for a %s id", a->rc, open.count(id) ? "known" : "unknown");
        open.erase(id);
    };
    int depth = param("depth", thorough() ? 6 : 4);
    for (int d = 0; d < depth; d++) {
        int k = choose(13, "operation");
        if (k != 8 && k != 9 && !online) prune();
        switch (k) {
        case 0: case 1: pubs(ids[k], false, "t"); break;
        case 2: case 3: pubs(ids[k - 2], true, "t"); break;
        case 4: case 5: rel(ids[k - 4]); break;
        case 6: pubs(1, false, "d"); break;
        case 7: { std::string pl = "q" + std::to_string(n++); note("QoS 1 publish"); if (open.count(7)) prune(); b.publish("P", "t", pl, 1); p.raw(mq::publish(pv, "t", pl, 1, 7)); settle(); auto a = p.pop(); REQUIRE(a && a->type == PUBACK && a->id == 7, "puback", "QoS 1 publish answered with %s", a ? a->txt().c_str() : "nothing"); break; }
        case 8: if (online) { note("P drops"); p.close(); settle(); b.offline("P"); online = false; } else { note("P returns"); con(p, false, 1000); online = true; } break;
        case 9: note("P connects with a clean start"); con(p, true, 1000); if (pv < 5) { /* ends with its connection */ b.ses["P"].expiry = 0; } open.clear(); online = true; break;
        case 10: note("P takes over"); { bool sp = b.ses["P"].expiry != 0; if (!sp) open.clear(); con(p, false, 1000); } break;
        case 11: { note("two packets in one write: PUBLISH 1 twice"); bool fresh = !open.count(1); std::string pl = "m" + std::to_string(n++);
            p.raw(mq::publish(pv, "t", pl, 2, 1) + mq::publish(pv, "t", pl, 2, 1, false, true)); settle();
            for (int i = 0; i < 2; i++) { auto a = p.pop(); REQUIRE(a && a->type == PUBREC && a->id == 1, "pubrec", "no PUBREC"); }
            if (fresh) b.publish("P", "t", pl, 2);
            open.insert(1); break; }
        case 12: { note("PUBLISH 1, PUBREL 1, PUBLISH 1 in one write"); bool fresh = !open.count(1); std::string a1 = "m" + std::to_string(n++), a2 = "m" + std::to_string(n++);
            p.raw(mq::publish(pv, "t", a1, 2, 1) + ack(pv, PUBREL, 1) + mq::publish(pv, "t", a2, 2, 1)); settle();
            static const int ty[] = {PUBREC, PUBCOMP, PUBREC};
            for (int i = 0; i < 3; i++) { auto a = p.pop(); REQUIRE(a && a->type == ty[i] && a->id == 1, "handshake", "packet %d of the answers is %s", i, a ? a->txt().c_str() : "missing"); }
            if (fresh) b.publish("P", "t", a1, 2);
            b.publish("P", "t", a2, 2); open.insert(1); break; }
        }
        if (!online && b.ses.count("P") == 0) open.clear();
        check();
    }
    if (!online) { con(p, false, 1000); online = true; }
    for (unsigned id : ids) { pubs(id, true, "t"); check(); rel(id); pubs(id, false, "t"); check(); rel(id); check(); }
    con(o, false, 1000); compare("exactly-once-queued", o, b, "the offline subscriber");
    note("model %s", b.text().c_str());
}
