// P04 QoS 1 and 2 messages survive disconnects until acknowledged.
#include "mqtt.h"
#include "model.h"
using namespace mc;
using namespace mq;

struct Msg { std::string payload; int qos; int st; unsigned id; bool sent; }; // st 0: PUBLISH outstanding, 1: PUBREL outstanding
struct World {
    Cl s, p; std::vector<Msg> out; bool online = false; int n = 0; unsigned last_done = 0; int exp;
    // the live packets the broker must now have written
    void expect_publish(Msg &m, bool again)
    {
        auto k = s.pop();
        REQUIRE(k, "lost", "message %s was not %s", m.payload.c_str(), again ? "sent again after the reconnect" : "delivered");
        REQUIRE(k->type == PUBLISH && k->payload == m.payload, "order", "expected PUBLISH of %s but got %s", m.payload.c_str(), k->txt().c_str());
        REQUIRE(k->qos == m.qos, "qos", "message %s arrived with QoS %d", m.payload.c_str(), k->qos);
        REQUIRE(k->id != 0, "id", "packet identifier 0");
        if (m.sent) REQUIRE(k->id == m.id, "id-changed", "message %s was sent again with id %u instead of %u", m.payload.c_str(), k->id, m.id);
        else for (auto &o : out) if (&o != &m && o.id) REQUIRE(o.id != k->id, "id-in-use", "message %s got id %u, which message %s still uses", m.payload.c_str(), k->id, o.payload.c_str());
        REQUIRE(k->dup == m.sent, "dup", "message %s %s DUP=%d", m.payload.c_str(), m.sent ? "sent again with" : "sent for the first time with", k->dup);
        m.id = k->id; m.sent = true;
    }
    void nothing(const char *w) { auto k = s.pop(); if (k) fail("unexpected", "%s: unexpected %s", w, k->txt().c_str()); REQUIRE(!s.closed() || !online, "closed", "%s: connection closed", w); }
    void pubrels()
    {
        std::set<unsigned> want; for (auto &m : out) if (m.st == 1) want.insert(m.id);
        while (!want.empty()) { auto k = s.pop(); REQUIRE(k && k->type == PUBREL, "pubrel", "no PUBREL after the reconnect (got %s)", k ? k->txt().c_str() : "nothing"); REQUIRE(want.erase(k->id), "pubrel", "PUBREL for id %u", k->id); }
    }
    void up(bool sp)
    {
        s.o.clean = false; s.o.props.clear(); if (s.v5()) s.o.props.push_back(pn(P_SESSEXP, 5000));
        s.rx.clear(); s.rbuf.clear();
        REQUIRE(s.connect(), "connect", "not accepted");
        REQUIRE(s.connack.sp == sp, "session-present", "session present %d", s.connack.sp);
        online = true;
        for (auto &m : out) if (m.st == 0) expect_publish(m, true);
        pubrels();
        nothing("after reconnecting");
    }
    void publish(int q, bool dup = false)
    {
        std::string pl = "m" + std::to_string(n++); note("P publishes %s q%d%s", pl.c_str(), q, dup ? " DUP" : "");
        unsigned id = p.next_id++;
        p.raw(mq::publish(p.o.ver, "t", pl, q, id, false, dup)); settle();
        auto a = p.pop(); REQUIRE(a && a->id == id && a->type == (q == 1 ? PUBACK : PUBREC), "publish", "not acknowledged");
        if (q == 2) { p.raw(ack(p.o.ver, PUBREL, id)); settle(); a = p.pop(); REQUIRE(a && a->id == id && a->type == PUBCOMP, "publish", "no PUBCOMP"); }
        out.push_back({pl, q, 0, 0, false});
        if (online) expect_publish(out.back(), false);
    }
    void step(size_t i, int rc = -1)
    {
        Msg &m = out[i];
        if (m.qos == 1) { note("S PUBACK %u%s", m.id, rc > 0 ? " error" : ""); s.raw(ack(s.o.ver, PUBACK, m.id, rc)); last_done = m.id; out.erase(out.begin() + i); settle(); }
        else if (m.st == 0) {
            note("S PUBREC %u%s", m.id, rc > 0 ? " error" : ""); s.raw(ack(s.o.ver, PUBREC, m.id, rc)); settle();
            if (rc >= 0x80) { last_done = m.id; out.erase(out.begin() + i); }
            else { m.st = 1; auto k = s.pop(); REQUIRE(k && k->type == PUBREL && k->id == m.id, "pubrel", "PUBREC for %u answered with %s", m.id, k ? k->txt().c_str() : "nothing"); }
        } else { note("S PUBCOMP %u", m.id); s.raw(ack(s.o.ver, PUBCOMP, m.id)); last_done = m.id; out.erase(out.begin() + i); settle(); }
        nothing("after an acknowledgement");
    }
};
CHECK(P04, "")
{
    Server srv; REQUIRE(srv.start(), "boot", "no start");
    World w; int sv = 4 + choose(2, "version");
    w.s = Cl("S", sv); w.p = Cl("P", 5); w.p.o.clean = true;
    w.up(false);
    REQUIRE(w.s.subscribe({{"t", 2}}), "suback", "no SUBACK");
    REQUIRE(w.p.connect(), "connect", "P");
    int depth = param("depth", thorough() ? 7 : 5);
    for (int d = 0; d < depth; d++) {
        int k = choose(10, "operation");
        switch (k) {
        case 0: case 1: w.publish(1 + k); break;
        case 2: if (!w.online || w.out.empty()) prune(); w.step(0); break;
        case 3: if (!w.online || w.out.size() < 2) prune(); w.step(w.out.size() - 1); break;
        case 4: if (w.online) { note("S drops"); w.s.close(choose(2, "reset")); settle(); w.online = false; } else { note("S returns"); w.up(true); } break;
        case 5: { if (!w.online) prune(); note("S takes over"); w.up(true); break; }
        case 6: { // refuses the first QoS 2 message
            if (!w.online || sv < 5) prune();
            size_t i = 0; while (i < w.out.size() && w.out[i].st) i++;
            if (i == w.out.size()) prune();
            w.step(i, 0x80); break; }
        case 7: { // acknowledgements for an id that is not in use
            if (!w.online) prune();
            unsigned id = w.last_done ? w.last_done : 777; for (auto &m : w.out) if (m.id == id) prune();
            note("S sends PUBACK, PUBREC, PUBCOMP %u out of the blue", id);
            w.s.raw(ack(sv, PUBACK, id)); settle(); w.nothing("after a stray PUBACK");
            w.s.raw(ack(sv, PUBREC, id)); settle(); { auto x = w.s.pop(); if (x) REQUIRE(x->type == PUBREL && x->id == id, "stray-pubrec", "stray PUBREC answered with %s", x->txt().c_str()); }
            if (choose(2, "with PUBCOMP")) { w.s.raw(ack(sv, PUBCOMP, id)); settle(); w.nothing("after a stray PUBCOMP"); }
            break; }
        case 8: { // PUBREC again
            if (!w.online) prune();
            size_t i = 0; while (i < w.out.size() && !w.out[i].st) i++;
            if (i == w.out.size()) prune();
            note("S repeats PUBREC %u", w.out[i].id);
            w.s.raw(ack(sv, PUBREC, w.out[i].id)); settle();
            auto x = w.s.pop(); REQUIRE(x && x->type == PUBREL && x->id == w.out[i].id, "repeat-pubrec", "repeated PUBREC answered with %s", x ? x->txt().c_str() : "nothing");
            w.nothing("after a repeated PUBREC"); break; }
        case 9: { if (d > 2) prune(); w.publish(1, true); break; } // the publisher's own DUP flag is not passed on
        }
    }
    // everything outstanding completes
    if (!w.online) w.up(true);
    while (!w.out.empty()) w.step(0);
    w.s.close(); settle(); w.online = false; w.up(true);
    w.publish(1); w.step(0); w.publish(2); w.step(0); w.step(0);
    note("complete");
}
