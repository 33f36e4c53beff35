// P22 Packet identifiers are unique and receive maximum is respected.
#include "mqtt.h"
#include "model.h"
using namespace mc;
using namespace mq;
struct Msg { std::string payload; int qos; int st; unsigned id; bool sent; };
struct World {
    Cl s, p; std::vector<Msg> out; std::vector<unsigned> finished; bool online = false; int n = 0, R = 1, quota = 1; bool persistent = true;
    void got(Msg &m, const char *w)
    {
        auto k = s.pop();
        REQUIRE(k, "lost", "%s: message %s was not sent, with %d of %d places free", w, m.payload.c_str(), quota, R);
        REQUIRE(k->type == PUBLISH && k->payload == m.payload && k->qos == m.qos, "order", "%s: expected PUBLISH of %s but got %s", w, m.payload.c_str(), k->txt().c_str());
        REQUIRE(k->id, "id", "packet identifier 0");
        if (m.sent) REQUIRE(k->id == m.id, "id-changed", "message %s was sent again with id %u instead of %u", m.payload.c_str(), k->id, m.id);
        for (auto &o : out) if (&o != &m && (o.sent || o.st)) REQUIRE(o.id != k->id, "id-in-use", "message %s got id %u, which %s still uses", m.payload.c_str(), k->id, o.payload.c_str());
        m.id = k->id; m.sent = true;
        int unacked = 0; for (auto &o : out) if (o.sent && !o.st) unacked++;
        count("publishes-judged");
    }
    void nothing(const char *w) { auto k = s.pop(); if (k) fail("unexpected", "%s: unexpected %s with %d of %d places free", w, k->txt().c_str(), quota, R); if (online) REQUIRE(!s.closed(), "closed", "%s: connection closed", w); }
    void up()
    {
        s.o.clean = !persistent; s.o.props.clear();
        if (persistent) s.o.props.push_back(pn(P_SESSEXP, 5000));
        s.o.props.push_back(pn(P_RECVMAX, R));
        s.rx.clear(); s.rbuf.clear();
        REQUIRE(s.connect(), "connect", "not accepted");
        online = true; quota = R;
        for (auto &m : out) if (!m.st) { quota--; got(m, "after the reconnect"); }
        std::set<unsigned> want; for (auto &m : out) if (m.st) want.insert(m.id);
        while (!want.empty()) { auto k = s.pop(); REQUIRE(k && k->type == PUBREL && want.erase(k->id), "pubrel", "expected PUBREL after the reconnect, got %s", k ? k->txt().c_str() : "nothing"); }
        nothing("after connecting");
        if (!persistent) REQUIRE(s.subscribe({{"t", 2}}), "suback", "no SUBACK");
    }
    void publish(const std::vector<int> &qs)
    {
        std::string raw; std::vector<unsigned> ids;
        std::vector<Msg> fresh;
        for (int q : qs) { Msg m{"m" + std::to_string(n++), q, 0, 0, false}; note("P publishes %s q%d", m.payload.c_str(), q); unsigned id = q ? p.next_id++ : 0; raw += mq::publish(5, "t", m.payload, q, id); if (q == 2) raw += ack(5, PUBREL, id); fresh.push_back(m); }
        p.raw(raw); settle(); p.pump(); p.rx.clear();
        for (auto &m : fresh) {
            if (m.qos == 0) { if (online) { auto k = s.pop(); REQUIRE(k && k->type == PUBLISH && k->payload == m.payload, "qos0", "QoS 0 message %s was not delivered although only QoS messages are limited", m.payload.c_str()); } continue; }
            if (!online && !persistent) continue;
            if (quota <= 0) { count("dropped-over-limit"); continue; } // the excess is dropped
            quota--; out.push_back(m); if (online) got(out.back(), "live");
        }
        nothing("after publishing");
    }
    void release(size_t i) { finished.push_back(out[i].id); out.erase(out.begin() + i); quota = std::min(quota + 1, R); }
    void step(size_t i, bool error)
    {
        Msg &m = out[i]; int rc = error ? 0x87 : -1;
        if (m.qos == 1) { note("S PUBACK %u%s", m.id, error ? " error" : ""); s.raw(ack(5, PUBACK, m.id, rc)); settle(); release(i); }
        else if (!m.st) {
            note("S PUBREC %u%s", m.id, error ? " error" : ""); s.raw(ack(5, PUBREC, m.id, rc)); settle();
            if (error) release(i);
            else { m.st = 1; auto k = s.pop(); REQUIRE(k && k->type == PUBREL && k->id == m.id, "pubrel", "PUBREC for %u answered with %s", m.id, k ? k->txt().c_str() : "nothing"); }
        } else { note("S PUBCOMP %u", m.id); s.raw(ack(5, PUBCOMP, m.id)); settle(); release(i); }
        nothing("after an acknowledgement");
    }
};
static void wrap(World &w)
{
    // identifiers wrap around while some are in use
    int held = 1 + choose(2, "held"), hq = 1 + choose(2, "qos"); w.R = held + 2; w.persistent = choose(2, "persistent");
    w.up(); if (w.persistent) REQUIRE(w.s.subscribe({{"t", 2}}), "suback", "no SUBACK");
    for (int i = 0; i < held; i++) { w.publish({hq}); if (hq == 2 && i) w.step(i, false); }
    note("65540 messages");
    unsigned last = 0; std::set<unsigned> inuse; for (auto &m : w.out) inuse.insert(m.id);
    const int N = 256; int zero = 0;
    for (int b = 0; b < 65540 / N + 2; b++) {
        std::string raw; for (int i = 0; i < N; i++) raw.append(mq::publish(5, "t", "x", 1, 1 + i));
        for (int i = 0; i < N; i++) {
            w.p.raw(mq::publish(5, "t", "x", 1, 1)); settle();
            auto k = w.s.pop(); REQUIRE(k && k->type == PUBLISH && k->qos == 1, "lost", "message %d was not delivered: %s", b * N + i, k ? k->txt().c_str() : "nothing");
            REQUIRE(k->id != 0, "id", "packet identifier 0"); REQUIRE(!inuse.count(k->id), "id-in-use", "id %u is still in use", k->id);
            if (k->id < last) zero++;
            last = k->id; w.s.raw(ack(5, PUBACK, k->id)); settle();
        }
        w.p.pump(); w.p.rx.clear();
    }
    REQUIRE(zero == 1, "wrap", "identifiers wrapped %d times", zero);
    if (w.persistent) { w.s.close(); settle(); w.online = false; w.up(); }
    while (!w.out.empty()) w.step(0, false);
}
static void exhausted(World &w)
{
    // all identifiers in use: nothing may hang
    w.R = 65535; w.persistent = true; w.up(); REQUIRE(w.s.subscribe({{"t", 2}}), "suback", "no SUBACK");
    for (int i = 0; i < 65535; i += 255) { std::string raw; for (int k = 0; k < 255; k++) raw += mq::publish(5, "t", "x", 2, 1 + k) + ack(5, PUBREL, 1 + k); w.p.raw(raw); settle(); w.p.pump(); w.p.rx.clear(); w.s.pump(); }
    std::set<unsigned> ids; for (auto &k : w.s.rx) { REQUIRE(k.type == PUBLISH && k.id && ids.insert(k.id).second, "id", "%s", k.txt().c_str()); }
    REQUIRE(ids.size() == 65535, "lost", "%zu of 65535 messages arrived", ids.size());
    w.s.rx.clear(); w.s.raw(ack(5, PUBREC, 17)); settle(); auto k = w.s.pop(); REQUIRE(k && k->type == PUBREL, "pubrel", "no PUBREL");
    w.s.close(); settle(); w.s.rbuf.clear(); w.s.rx.clear(); REQUIRE(w.s.connect(), "connect", "reconnect");
    settle(); w.s.pump(); note("65535 identifiers in use, one place free"); size_t had = w.s.rx.size();
    w.p.raw(mq::publish(5, "t", "y", 1, 1)); settle();
    auto a = w.p.pop(PUBACK); REQUIRE(a, "hang", "publisher got no PUBACK when all identifiers of a subscriber are in use");
    w.s.pump(); for (size_t i = had; i < w.s.rx.size(); i++) if (w.s.rx[i].type == PUBLISH && w.s.rx[i].payload == "y") fail("id-in-use", "got id %u although all are in use", w.s.rx[i].id);
    REQUIRE(w.p.ping(), "hang", "no PINGRESP");
}
// a client that returns with a smaller receive maximum gets the messages it has not acknowledged a few at a time
static void shrink(World &w)
{
    w.R = 3; w.persistent = true; w.up(); REQUIRE(w.s.subscribe({{"t", 2}}), "suback", "no SUBACK");
    int q = 1 + choose(2, "qos"); bool live = choose(2, "live");
    if (!live) { w.s.close(); settle(); w.online = false; }
    w.publish({q, q, q});
    if (live) { w.s.close(); settle(); w.online = false; }
    w.R = 1; w.s.o.props.back() = pn(P_RECVMAX, 1); note("S returns with receive maximum 1"); w.s.rx.clear(); w.s.rbuf.clear(); REQUIRE(w.s.connect(), "connect", "no");
    std::vector<std::string> got;
    for (int i = 0; i < 20 && got.size() < 3; i++) {
        auto v = w.s.publishes(); REQUIRE(v.size() <= 1, "receive-max", "%zu messages at once", v.size());
        for (auto &m : v) got.push_back(m.payload);
        if (v.empty()) { w.s.close(); settle(); w.s.rx.clear(); w.s.rbuf.clear(); REQUIRE(w.s.connect(), "connect", "no"); }
    }
    REQUIRE(got == (std::vector<std::string>{"m0", "m1", "m2"}), "dropped-on-smaller-receive-max", "of the three unacknowledged messages only %s arrived after the client returned with receive maximum 1", model::join(got).c_str());
}
CHECK(P22, "")
{
    int part = choose(4, "part");
    if (part && param("depth", 0)) prune();
    World w; w.s = Cl("S", 5); w.p = Cl("P", 5);
    Server srv; REQUIRE(srv.start(part == 2 ? "max_qos_msg_pending_per_client 65535\nmax_qos_bytes_pending_per_client 100000000\nclient_max_write_buffer_size 100000000\n" : ""), "boot", "no start");
    REQUIRE(w.p.connect(), "connect", "P");
    if (part == 1) return wrap(w);
    if (part == 2) return exhausted(w);
    if (part == 3) return shrink(w);
    w.R = 1 + choose(3, "receive maximum"); w.persistent = choose(2, "persistent");
    w.up(); if (w.persistent) REQUIRE(w.s.subscribe({{"t", 2}}), "suback", "no SUBACK");
    note("receive maximum %d, %s", w.R, w.persistent ? "persistent" : "clean");
    int depth = param("depth", thorough() ? 6 : 4);
    for (int d = 0; d < depth; d++) {
        int k = choose(12, "operation");
        auto on = [&] { if (!w.online) prune(); };
        switch (k) {
        case 0: case 1: w.publish({1 + k}); break;
        case 2: w.publish({2, 0, 1}); break;
        case 3: on(); if (w.out.empty()) prune(); w.step(0, false); break;
        case 4: on(); if (w.out.size() < 2) prune(); w.step(w.out.size() - 1, false); break;
        case 5: { on(); if (w.out.empty() || w.out[0].st) prune(); w.step(0, true); break; }
        case 6: if (w.online) { note("S drops"); w.s.close(); settle(); w.online = false; if (!w.persistent) { w.out.clear(); w.finished.clear(); } } else { note("S returns"); w.up(); } break;
        case 7: { on(); note("S takes over"); if (!w.persistent) w.out.clear(); w.up(); break; }
        case 8: { // acknowledgements of something not in use
            on(); unsigned id = w.finished.empty() ? 999 : w.finished.back(); for (auto &m : w.out) if (m.id == id) prune();
            note("S sends stray acknowledgements for %u", id);
            w.s.raw(ack(5, PUBACK, id)); settle(); w.nothing("after a stray PUBACK");
            w.s.raw(ack(5, PUBCOMP, id)); settle(); w.nothing("after a stray PUBCOMP");
            w.s.raw(ack(5, PUBREC, id)); settle(); { auto x = w.s.pop(); if (x) REQUIRE(x->type == PUBREL, "stray-pubrec", "answered with %s", x->txt().c_str()); }
            w.s.raw(ack(5, PUBREC, id, 0x87)); settle(); w.nothing("after a stray refusal");
            break; }
        case 9: { // PUBCOMP before PUBREC
            on(); size_t i = 0; while (i < w.out.size() && (w.out[i].st || w.out[i].qos != 2)) i++; if (i == w.out.size()) prune();
            note("S sends an early PUBCOMP %u", w.out[i].id); w.s.raw(ack(5, PUBCOMP, w.out[i].id)); settle(); w.nothing("after an early PUBCOMP"); break; }
        case 10: { on(); size_t i = 0; while (i < w.out.size() && !w.out[i].st) i++; if (i == w.out.size()) prune();
            note("S repeats PUBREC %u", w.out[i].id); w.s.raw(ack(5, PUBREC, w.out[i].id)); settle();
            auto x = w.s.pop(); REQUIRE(x && x->type == PUBREL && x->id == w.out[i].id, "repeat-pubrec", "answered with %s", x ? x->txt().c_str() : "nothing"); w.nothing("after a repeated PUBREC"); break; }
        case 11: w.publish({1, 1, 2}); break;
        }
    }
    if (!w.online) w.up();
    while (!w.out.empty()) w.step(0, false);
    std::vector<int> fill(w.R + 1, 2); w.publish(fill);  // exactly R places are free now
    REQUIRE((int)w.out.size() == w.R, "places", "%zu messages outstanding with receive maximum %d", w.out.size(), w.R);
    while (!w.out.empty()) w.step(0, false);
    note("complete");
}
