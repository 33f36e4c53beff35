// P26 Keep-alive disconnects silent clients and only them.
#include "mqtt.h"
#include "model.h"
using namespace mc;
using namespace mq;
static void connected()
{
    static const int ks[] = {0, 1, 2, 5, 7, 60, 1000, 65535};
    int ver = 3 + choose(3, "version"), K = ks[choose(8, "keep-alive")];
    Server srv; REQUIRE(srv.start(), "boot", "no start");
    Cl s("S", 4), p("P", 4), c("C", ver);
    REQUIRE(s.connect() && s.subscribe({{"w", 2}}) && p.connect(), "connect", "S");
    c.o.keepalive = K; c.o.will = Will{"w", "gone", 1, false, {}};
    uint64_t tc = sim::now_ns(); REQUIRE(c.connect(), "connect", "C");
    int eff = K; if (ver == 5) { auto a = find(c.connack.props, P_SRVKEEP); if (a) eff = a->num; REQUIRE(K == 0 || eff >= std::min(K, 5), "server-keep-alive", "server keep-alive %d for %d", eff, K); }
    REQUIRE(c.subscribe({{"r", 0}}), "suback", "no");
    note("version %d, keep-alive %d (effective %d)", ver, K, eff);
    auto alive = [&](const char *w) { c.pump(); REQUIRE(!c.closed(), "closed-early", "%s: closed although it is not silent long enough (keep-alive %d)", w, eff); };
    if (eff == 0) {
        advance(200000000, 10000); alive("keep-alive 0, silent for 55 hours"); REQUIRE(c.ping(), "ping", "no PINGRESP"); return;
    }
    uint64_t k = eff * 1000ull, far = k + k / 2 > 1000 ? k + k / 2 - 1000 : 500;
    int depth = param("depth", thorough() ? 3 : 2); bool half = false;
    for (int i = 0; i < depth; i++) {
        int gap = choose(3, "gap"), kind = choose(7, "packet");
        uint64_t g = gap == 0 ? k / 2 : gap == 1 ? k : far;
        if ((half && kind == 5) || (eff >= 1000 && (gap != 2 || kind > 1 || i > 0))) prune();
        advance(g, std::min<uint64_t>(std::max<uint64_t>(g / 30, 250), 10000));
        note("after %.1f s: packet kind %d", g / 1000., kind); alive("before the packet");
        if (half) { c.raw(mq::publish(ver, "x", "half", 1, 77).substr(3)); settle(); half = false; REQUIRE(c.pop(PUBACK), "ping", "no PUBACK"); }
        switch (kind) {
        case 0: REQUIRE(c.ping(), "ping", "no PINGRESP"); break;
        case 1: c.raw(mq::publish(ver, "x", "y", 0)); settle(); break;
        case 2: REQUIRE(c.publish("x", "y", 1), "ping", "no PUBACK"); break;
        case 3: REQUIRE(c.subscribe({{"z", 0}}), "ping", "no SUBACK"); break;
        case 4: c.raw(ack(ver, PUBACK, 999)); settle(); break;
        case 5: c.raw(mq::publish(ver, "x", "half", 1, 77).substr(0, 3)); settle(); half = true; break; // a partial packet counts as life
        case 6: for (int n = 0; n < 3; n++) c.raw(pingreq()); settle(); for (int n = 0; n < 3; n++) REQUIRE(c.pop(PINGRESP), "ping", "only %d PINGRESPs for 3", n); break;
        }
        alive("after the packet");
    }
    int receives = choose(2, "receives");
    note("silence%s", receives ? ", but receives" : "");
    uint64_t t0 = sim::now_ns();
    advance(far, std::min<uint64_t>(std::max<uint64_t>(far / 30, 250), 10000)); alive("silent");
    if (receives) p.pub("r", "you");
    settle(); REQUIRE(s.publishes().empty(), "will-early", "will published before the end");
    uint64_t end = std::max<uint64_t>(t0 + (k + k / 2 + 14000) * 1000000ull, tc + 37000000000ull); // the first look at a client is 30 s after it connected
    while (sim::now_ns() < end && !c.closed()) { advance(1000); if (receives && !c.closed()) { p.pub("r", "you"); settle(); } }
    REQUIRE(c.closed(), "not-closed", "silent for %llu s and still connected with keep-alive %d", (unsigned long long)((sim::now_ns() - t0) / 1000000000), eff);
    advance(3000); auto v = s.publishes(); REQUIRE(v.size() == 1 && v[0].payload == "gone", "will", "%zu wills", v.size());
    REQUIRE(p.ping() && s.ping(), "other", "another client is affected");
    advance(20000); REQUIRE(s.publishes().empty(), "will", "second will");
}
// The keep-alive of the newest connection counts
static void reconnect()
{
    int ver = 3 + choose(3, "version"), k1 = choose(2, "first") ? 6 : 600, k2 = choose(2, "second") ? 6 : 600, how = choose(3, "how");
    Server srv; REQUIRE(srv.start(), "boot", "no start");
    Cl a("C", ver), b("C", ver); a.o.keepalive = k1; b.o.keepalive = k2;
    REQUIRE(a.connect(), "connect", "a"); advance(5000);
    note("version %d, %d then %d, way %d", ver, k1, k2, how);
    if (how == 0) a.close(); else if (how == 1) a.disconnect();
    settle(); uint64_t tc = sim::now_ns(); REQUIRE(b.connect(), "connect", "b");
    if (how == 2) { advance(1000); REQUIRE(a.closed(), "takeover", "first connection not closed"); }
    uint64_t t0 = sim::now_ns(); advance(k2 * 1500 - 1000, 1000); REQUIRE(!b.closed(), "closed-early", "closed after %d s with keep-alive %d", k2 * 3 / 2 - 1, k2);
    while (!b.closed() && sim::now_ns() < std::max<uint64_t>(t0 + (k2 * 1500 + 14000) * 1000000ull, tc + 37000000000ull)) advance(1000);
    REQUIRE(b.closed(), "not-closed", "not closed with keep-alive %d", k2);
}
static void never_authenticated()
{
    int ws = choose(2, "websocket"); int n = choose(4, "pieces"); uint64_t last = 0;
    Server srv; REQUIRE(srv.start("listen {\nport 8080\nprotocol websockets\ninet_protocol ip4\n}\n"), "boot", "no start");
    Cl w("W", 4), c("X", 4); REQUIRE(w.connect(), "connect", "W");
    c.port = ws ? 8080 : 1883; c.open(); settle();
    std::string bytes = ws ? "GET /mqtt HTTP/1.1\r\nHost: x\r\n" : mq::connect(c.o);
    static const int at[] = {0, 9, 16, 22, 28, 31}; int from = 0;
    for (int i = 0; i < n; i++) {
        int k = from + choose(6 - from, "time"); from = k; 
        if ((uint64_t)at[k] > last) advance((at[k] - last) * 1000, 500);
        last = at[k];
        if (c.closed()) return;
        note("piece at %d s", at[k]); c.raw(bytes.substr(i * 3, 3)); settle();
    }
    uint64_t t0 = sim::now_ns();
    while (!c.closed() && sim::now_ns() < t0 + 100 * 1000000000ull) advance(2500);
    REQUIRE(c.closed(), "not-closed", "a connection that never sent a whole CONNECT is still there after 100 s of silence");
    REQUIRE(w.ping(), "other", "another client is affected");
}
CHECK(P26, "") { switch (choose(3, "part")) { case 0: connected(); break; case 1: reconnect(); break; case 2: never_authenticated(); break; } }
