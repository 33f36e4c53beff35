// P27 Offline queue limits are exact and drop only the excess.
#include <cstring>
#include "mqtt.h"
#include "model.h"
using namespace mc;
using namespace mq;
struct Msg { std::string payload; int qos; unsigned id = 0; int st = 0; size_t bytes; uint64_t until = UINT64_MAX; bool sent = false; };
struct Q {
    Cl c; bool online = false; int R; int quota; size_t maxb; std::vector<Msg> q; std::string topic; size_t peak = 0;
    size_t bytes() const { size_t b = 0; for (auto &m : q) if (!m.st) b += m.bytes; return b; }
    size_t queued() const { size_t n = 0; for (auto &m : q) if (!m.st) n++; return n; }
    void expire(bool) { for (auto it = q.begin(); it != q.end();) if (!it->st && it->until < sim::now_ns()) { it = q.erase(it); quota++; } else ++it; }
    void expect(Msg &m, const char *w)
    {
        auto k = c.pop(); REQUIRE(k, "lost", "%s: message %.12s (%zu bytes) was not delivered although it fits (%zu queued, %zu bytes, %d places)", w, m.payload.c_str(), m.bytes, queued(), bytes(), quota);
        REQUIRE(k->type == PUBLISH && k->payload == m.payload && k->qos == m.qos, "order", "%s: expected %.12s but got %s", w, m.payload.c_str(), k->txt().substr(0, 200).c_str());
        m.id = k->id; m.sent = true; count("delivered");
    }
    void nothing(const char *w) { auto k = c.pop(); if (k) fail("unexpected", "%s: %s received %s beyond its limits (%zu queued, %zu bytes, %d places)", w, c.name.c_str(), k->txt().substr(0, 200).c_str(), queued(), bytes(), quota); if (online) REQUIRE(!c.closed(), "closed", "%s: %s was disconnected", w, c.name.c_str()); }
    void accept(const Msg &m)
    {
        if (m.qos == 0) { if (online) { auto k = c.pop(); REQUIRE(k && k->payload == m.payload, "qos0", "QoS 0 message was not delivered to the connected %s", c.name.c_str()); } return; }
        if (!online) expire(false);
        if (quota <= 0 || (queued() > 0 && bytes() >= maxb)) { count("dropped"); return; }
        quota--; q.push_back(m); if (online) expect(q.back(), "live"); peak = std::max(peak, queued());
    }
    void up(bool first)
    {
        c.o.clean = false; c.o.props.clear(); if (c.v5()) { c.o.props.push_back(pn(P_SESSEXP, 5000)); if (R < 32) c.o.props.push_back(pn(P_RECVMAX, R)); }
        c.rx.clear(); c.rbuf.clear(); REQUIRE(c.connect(), "connect", "%s", c.name.c_str()); REQUIRE(c.connack.sp == !first, "session-present", "%d", c.connack.sp);
        online = true;
        if (first) REQUIRE(c.subscribe({{topic, 2}}), "suback", "no SUBACK");
        for (auto it = q.begin(); it != q.end();) if (!it->st && it->until < sim::now_ns()) it = q.erase(it); else ++it;
        quota = R; for (auto &m : q) if (!m.st) { quota--; expect(m, "after the reconnect"); }
        for (auto &m : q) if (m.st) { auto k = c.pop(); REQUIRE(k && k->type == PUBREL, "pubrel", "no PUBREL after the reconnect"); }
        nothing("after the reconnect");
    }
    void down() { c.close(); settle(); online = false; }
    void step()
    {
        Msg &m = q[0];
        if (m.qos == 1 || m.st) { c.raw(ack(c.o.ver, m.qos == 1 ? PUBACK : PUBCOMP, m.id)); quota = std::min(quota + 1, R); q.erase(q.begin()); settle(); }
        else { c.raw(ack(c.o.ver, PUBREC, m.id)); settle(); auto k = c.pop(); REQUIRE(k && k->type == PUBREL, "pubrel", "no PUBREL"); m.st = 1; }
    }
};
CHECK(P27, "")
{
    // {max messages, max bytes}
    static const std::pair<int, int> lim[] = {{32, 4096}, {33, 65536}};
    auto [N, B] = lim[choose(2, "limits")];
    Server srv; REQUIRE(srv.start("max_qos_msg_pending_per_client " + std::to_string(N) + "\nmax_qos_bytes_pending_per_client " + std::to_string(B) + "\n"), "boot", "no start");
    Q a, b; int kind = choose(3, "client"); a.c = Cl("A", kind == 0 ? 4 : 5); b.c = Cl("B", 4); a.topic = "t/#"; b.topic = "t/x/#";
    a.R = kind == 2 ? 3 : N; b.R = N; a.maxb = b.maxb = B; a.quota = a.R; b.quota = b.R;
    Cl p("P", 5); REQUIRE(p.connect(), "connect", "P");
    a.up(true); b.up(true); if (choose(2, "start offline")) a.down();
    b.down(); int n = 0;
    note("max %d messages, %d bytes, A version %d, receive maximum %d, %s", N, B, a.c.o.ver, a.R, a.online ? "online" : "offline");
    auto pub = [&](const char *t, int q, size_t size, int times, uint32_t exp = 0) {
        note("%d x %zu bytes q%d on %s%s", times, size, q, t, exp ? " expiring" : "");
        for (int i = 0; i < times; i++) {
            Msg m; m.payload = "m" + std::to_string(n++); m.payload.resize(size, '.'); m.qos = q; m.bytes = size + strlen(t); if (exp) m.until = sim::now_ns() + exp * 1000000000ull;
            Props pr; if (exp) pr.push_back(pn(P_EXPIRY, exp));
            REQUIRE(p.publish(t, m.payload, q, false, pr), "publish", "not acknowledged");
            a.accept(m); if (t[2] == 'x') b.accept(m);
        }
        a.nothing("after publishing"); };
    int depth = param("depth", thorough() ? 6 : 4);
    for (int d = 0; d < depth; d++) {
        int k = choose(12, "operation");
        switch (k) {
        case 0: pub("t/a", 1, 10, 31); break;
        case 1: pub("t/a", 2, 10, 1); break;
        case 2: pub("t/x", 1, B / 2, 1); break;
        case 3: pub("t/a", 2, B + 1000, 1); break;
        case 4: pub("t/x", 1, 7, 2); break;
        case 5: pub("t/a", 0, 100, 1); break;
        case 6: if (a.online) { note("A leaves"); a.down(); } else { note("A returns"); a.up(false); } break;
        case 7: if (!a.online || a.q.empty()) prune(); note("A acknowledges one"); a.step(); break;
        case 8: if (!a.online || a.q.empty()) prune(); note("A acknowledges all"); while (!a.q.empty()) a.step(); break;
        case 9: pub("t/a", 1, 20, 30, 2); break;
        case 10: if (!d) prune(); note("4 s"); advance(4000); break;
        case 11: pub("t/a", 1, B - 3 > 70000 ? 70000 : B - 3, 1); break; // exactly reaches the byte limit with its topic
        }
    }
    if (!a.online) a.up(false);
    while (!a.q.empty()) a.step();
    b.up(false); while (!b.q.empty()) b.step();
    pub("t/x/y", 1, 5, 2);
    REQUIRE(a.q.size() == 2 && b.q.size() == 2, "places", "no room after everything was acknowledged");
}
