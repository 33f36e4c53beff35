// P23 Packet size limits are respected both ways.
#include "mqtt.h"
#include "model.h"
using namespace mc;
using namespace mq;
static std::string vlen(uint64_t n, int bytes) { std::string r; for (int i = 0; i < bytes; i++) { int b = n & 127; n >>= 7; r += char(b | (i + 1 < bytes ? 128 : 0)); } return r; }
static void inbound()
{
    static const int lims[] = {1000, 127 + 2, 20000, 2000000};
    int lim = lims[choose(4, "limit")], ver = 3 + choose(3, "version"), off = choose(5, "size") - 2, split = choose(3, "arrival");
    Server srv; REQUIRE(srv.start("max_packet_size " + std::to_string(lim) + "\nclient_initial_buffer_size 64\n"), "boot", "no start");
    Cl s("S", 4), p("P", ver), w("W", 4); w.o.will = Will{"w", "gone", 0, false, {}};
    REQUIRE(s.connect() && s.subscribe({{"#", 2}}) && w.connect(), "connect", "S"); p.o.will = Will{"w", "will", 0, false, {}}; REQUIRE(p.connect(), "connect", "P");
    if (ver == 5) { auto m = find(p.connack.props, P_MAXPKT); REQUIRE((m ? (int)m->num : 268435455) == lim, "announce", "CONNACK announces %d with max_packet_size %d", m ? (int)m->num : -1, lim); }
    // the packet has exactly this size
    size_t size = lim + off; std::string pl(size, 'x'); int q = choose(3, "qos");
    while (mq::publish(ver, "t", pl, q, q ? 1 : 0).size() > size) pl.pop_back();
    std::string raw = mq::publish(ver, "t", pl, q, q ? 1 : 0); if (raw.size() != size) prune();
    note("limit %d, packet of %zu bytes, version %d, q%d, arrival %d", lim, size, ver, q, split);
    if (split == 0) { p.raw(raw); settle(); }
    else if (split == 1) { p.raw(raw.substr(0, 1)); settle(); p.raw(raw.substr(1, 4)); settle(); p.raw(raw.substr(5)); settle(); }
    else { p.raw(pingreq() + raw + pingreq()); settle(); }
    bool ok = (int)size <= lim;
    if (ok) {
        REQUIRE(!p.closed(), "refused", "a packet of %zu bytes was refused with limit %d", size, lim);
        if (q) { auto a = p.pop(q == 1 ? PUBACK : PUBREC); REQUIRE(a, "publish", "no acknowledgement"); }
        auto v = s.publishes(); REQUIRE(v.size() == 1 && v[0].payload == pl, "lost", "%zu messages", v.size());
        REQUIRE(p.ping(), "alive", "no PINGRESP");
    } else {
        advance(1000);
        REQUIRE(p.closed(), "accepted", "a packet of %zu bytes was accepted with limit %d", size, lim);
        p.pump(); bool d = false; for (auto &k : p.rx) if (k.type == DISCONNECT) { d = true; REQUIRE(k.rc == 0x95, "reason", "DISCONNECT reason %d", k.rc); }
        if (ver == 5) REQUIRE(d, "reason", "no DISCONNECT packet");
        advance(3000); auto v = s.publishes(); REQUIRE(v.size() == 1 && v[0].topic == "w" && v[0].payload == "will", "effect", "%zu messages instead of the will", v.size());
    }
    REQUIRE(w.ping() && s.ping(), "other", "another client is affected");
}
static void unauthenticated()
{
    // what an unauthenticated client can make the broker buffer
    static const uint64_t sizes[] = {1024 * 1024 - 6, 1024 * 1024 + 1, 5000000, 268435455};
    int k = choose(4, "size"), big = choose(2, "limit"), first = choose(4, "first byte");
    Server srv; REQUIRE(srv.start(big ? "max_packet_size 3000000\n" : ""), "boot", "no start");
    Cl w("W", 4), x("X", 4); REQUIRE(w.connect(), "connect", "W"); x.open(); settle();
    static const char fb[] = {0x10, 0x30, (char)0xc0, (char)0xf0};
    x.raw(std::string(1, fb[first]) + vlen(sizes[k], 4)); settle(); x.raw(std::string(100, 'z')); settle(); advance(500);
    note("first byte %02x, claims %llu bytes", fb[first] & 255, (unsigned long long)sizes[k]);
    if (k >= 1) REQUIRE(x.closed(), "unauthenticated", "an unauthenticated client may send %llu bytes", (unsigned long long)sizes[k]);
    else REQUIRE(!x.closed(), "unauthenticated", "refused a permitted size");
    // five length bytes are malformed
    x.open(); settle(); x.raw(std::string("\x10\xff\xff\xff\xff\x01", 6)); settle(); advance(500); REQUIRE(x.closed(), "length", "five byte remaining length accepted");
    REQUIRE(w.ping(), "other", "another client is affected");
}
struct Out { std::string payload, topic; int qos; size_t size, size_alias; };
static void outbound()
{
    const int M = 60; int alias = choose(2, "aliases"), rmax = 1 + choose(2, "receive maximum"), persistent = choose(2, "persistent");
    Server srv; REQUIRE(srv.start(), "boot", "no start");
    Cl p("P", 5), s("S", 5), o("O", 5); REQUIRE(p.connect() && o.connect() && o.subscribe({{"t/#", 2}}), "connect", "P");
    std::vector<Out> queue; bool online = false; int n = 0;
    auto up = [&](bool first) {
        s.o.clean = !persistent; s.o.props = {pn(P_MAXPKT, M), pn(P_RECVMAX, rmax)}; if (persistent) s.o.props.push_back(pn(P_SESSEXP, 5000)); if (alias) s.o.props.push_back(pn(P_ALIASMAX, 1));
        s.rx.clear(); s.rbuf.clear(); REQUIRE(s.connect(), "connect", "S"); online = true; if (first || !persistent) REQUIRE(s.subscribe({{"t/#", 2}}), "suback", "no"); };
    up(true);
    // judged: sizes never above M; everything that certainly fits arrives
    auto take = [&](const char *w) {
        s.pump(); for (auto &k : s.rx) REQUIRE((int)k.size <= M, "too-large", "%s: a %s of %zu bytes was sent to a client that accepts %d", w, tname(k.type), k.size, M);
        auto v = s.publishes(); size_t i = 0;
        for (auto &k : v) REQUIRE((int)k.size <= M, "too-large", "%s: a PUBLISH of %zu bytes was sent to a client that accepts %d", w, k.size, M);
        for (auto &e : queue) {
            if (i < v.size() && v[i].payload == e.payload) { REQUIRE(v[i].qos == e.qos && v[i].topic == e.topic, "content", "%s", v[i].txt().c_str()); i++; count("delivered"); }
            else { REQUIRE((int)std::max(e.size, e.size_alias) > M, "lost", "%s: message of %zu bytes (qos %d) was not delivered to a client that accepts %d", w, e.size, e.qos, M); count("too-large"); }
        }
        REQUIRE(i == v.size(), "unexpected", "%s: unexpected %s", w, v[i].txt().c_str());
        queue.clear(); };
    auto publish = [&](int size, int q, bool retain = false, bool expect = true) {
        Out e; e.topic = "t/abc"; e.qos = q; e.payload = "m" + std::to_string(n++);
        auto len = [&] { return mq::publish(5, e.topic, e.payload, q, q ? 1 : 0).size(); };
        while ((int)len() < size) e.payload += '.';
        e.size = len(); e.size_alias = alias ? e.size + 3 : e.size;
        note("publish, packet of %zu bytes, q%d%s", e.size, q, retain ? " retained" : "");
        REQUIRE(p.publish(e.topic, e.payload, q, retain), "publish", "no"); auto v = o.publishes(); REQUIRE(v.size() == 1, "other", "another client got %zu messages", v.size());
        if (online) { if (expect) queue.push_back(e); take("live"); }
        else if (persistent && q && (int)queue.size() < rmax) queue.push_back(e); };
    note("aliases %d, receive maximum %d, %s", alias, rmax, persistent ? "persistent" : "clean");
    int depth = param("depth", thorough() ? 6 : 4);
    for (int d = 0; d < depth; d++) {
        switch (int k = choose(9, "operation")) {
        case 0: case 1: case 2: publish(M + 1, k); break;
        case 3: case 4: case 5: publish(M, k - 3); break;
        case 6: publish(20, 1); break;
        case 7: if (online) { note("S leaves"); s.close(); settle(); online = false; } else { note("S returns"); up(false); take("after the reconnect"); } break;
        case 8: { if (!online) prune(); publish(M + 10, 2, true); note("subscribe again"); Out e; REQUIRE(s.subscribe({{"t/#", 2}}), "suback", "no"); advance(100); take("retained"); REQUIRE(p.publish("t/abc", "", 0, true), "publish", "no"); o.publishes(); s.publishes(); break; }
        }
    }
    if (!online) { up(false); take("after the reconnect"); }
    for (int i = 0; i < 3; i++) { publish(21, 1); publish(22, 2); publish(23, 0); }
    REQUIRE(s.ping(), "alive", "no PINGRESP");
}
CHECK(P23, "") { switch (choose(3, "part")) { case 0: inbound(); break; case 1: unauthenticated(); break; case 2: outbound(); break; } }
