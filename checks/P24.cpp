// P24 Output streams stay intact with slow readers.
#include "mqtt.h"
#include "model.h"
using namespace mc;
using namespace mq;
struct Exp { std::string topic, payload; int qos; size_t size; bool may_drop; int type; unsigned id; };
CHECK(P24, "")
{
    int ver = 4 + choose(2, "version"), initial = (int[]){64, 1024}[choose(2, "initial buffer")];
    const size_t MAXB = 4096;
    Server srv; REQUIRE(srv.start("client_initial_buffer_size " + std::to_string(initial) + "\nclient_max_write_buffer_size 4096\n"), "boot", "no start");
    Cl p("P", 5), s("S", ver), o("O", 4); s.o.clean = false; if (ver == 5) s.o.props = {pn(P_SESSEXP, 5000)};
    REQUIRE(p.connect() && s.connect() && o.connect(), "connect", "S"); REQUIRE(s.subscribe({{"t", 1}}) && o.subscribe({{"t", 0}}), "suback", "no");
    note("version %d, initial buffer %d", ver, initial);
    std::deque<Exp> exp; size_t pending = 0; int n = 0;
    auto publish = [&](size_t size, int q) {
        Exp e; e.topic = "t"; e.payload = "m" + std::to_string(n++); e.payload.resize(std::max(size, e.payload.size()), 'a' + n % 26); e.qos = q; e.type = PUBLISH; e.id = 0;
        e.size = mq::publish(ver, "t", e.payload, q, q ? 1 : 0).size();
        e.may_drop = q == 0 && pending + e.size + 1 > std::max<size_t>(MAXB, 2 * e.size);
        note("publish %zu bytes q%d with %zu pending", size, q, pending);
        REQUIRE(p.publish("t", e.payload, q), "publish", "no");
        auto v = o.publishes(); REQUIRE(v.size() == 1 && v[0].payload == e.payload, "other-client", "another subscriber got %zu messages", v.size());
        exp.push_back(e); pending += e.size; };
    auto take = [&] {
        settle(); size_t before = s.rbuf.size(); s.pump(); (void)before;
        for (auto &k : s.rx) {
            for (;;) {
                REQUIRE(!exp.empty(), "unexpected", "received %s, which was not expected", k.txt().substr(0, 100).c_str());
                Exp e = exp.front(); exp.pop_front(); pending -= e.size;
                if (e.type == k.type && (e.type != PUBLISH || (e.payload == k.payload && e.qos == k.qos && e.topic == k.topic))) { count("received"); break; }
                REQUIRE(e.may_drop, "lost", "expected %s of %zu bytes (qos %d) but received %s", tname(e.type), e.size, e.qos, k.txt().substr(0, 100).c_str());
                count("dropped-qos0");
            }
            if (k.type == PUBLISH && k.qos) { s.c->in += ack(ver, PUBACK, k.id); }
        }
        if (!s.rx.empty()) { s.rx.clear(); settle(); }
        REQUIRE(!s.closed(), "closed", "the slow reader was disconnected"); };
    bool stalled = false;
    auto stall = [&](size_t space) { s.c->out_space = space; stalled = space != SIZE_MAX; };
    int depth = param("depth", thorough() ? 6 : 4);
    // begin at an odd buffer position
    int lead = initial == 64 ? choose(3, "lead") : 0; if (lead) { publish(lead == 1 ? 37 : 900, 0); take(); }
    stall(0); note("S stops reading");
    for (int d = 0; d < depth; d++) {
        int k = choose(12, "operation");
        switch (k) {
        case 0: publish(20, 0); break;
        case 1: publish(1000, 0); break;
        case 2: publish(700, 1); break;
        case 3: publish(6000, 0); break;
        case 4: publish(9000, 1); break;
        case 5: { note("S pings"); s.raw(pingreq()); settle(); exp.push_back({"", "", 0, 2, false, PINGRESP, 0}); pending += 2; break; }
        case 6: if (!stalled) prune(); note("1 byte read"); s.c->out_space += 1; take(); break;
        case 7: if (!stalled) prune(); note("63 bytes read"); s.c->out_space += 63; take(); break;
        case 8: if (!stalled) prune(); note("2000 bytes read"); s.c->out_space += 2000; take(); break;
        case 9: if (stalled) { note("S reads on, %s", d % 2 ? "7 bytes a time" : "all"); s.c->write_max = d % 2 ? 7 : SIZE_MAX; stall(SIZE_MAX); take(); } else { note("S stops reading"); s.c->write_max = SIZE_MAX; stall(0); } break;
        case 10: if (!d) prune(); note("130 s"); advance(130000); if (!stalled) take(); break;
        case 11: publish(4080, 0); break;
        }
        if (!stalled) { take(); REQUIRE(pending == 0 || [&] { for (auto &e : exp) if (!e.may_drop) return false; return true; }(), "stuck", "%zu bytes not sent although the client reads", pending); exp.clear(); pending = 0; }
    }
    note("S reads everything"); s.c->write_max = SIZE_MAX; stall(SIZE_MAX); take();
    for (auto &e : exp) REQUIRE(e.may_drop, "lost", "%s of %zu bytes was not delivered", tname(e.type), e.size);
    exp.clear(); pending = 0;
    REQUIRE(s.rbuf.empty(), "partial", "the stream ends with %zu bytes of an incomplete packet", s.rbuf.size());
    publish(30, 0); take(); REQUIRE(exp.empty(), "stuck", "delivery did not resume");
    publish(3000, 1); take(); REQUIRE(exp.empty(), "stuck", "delivery did not resume");
}
