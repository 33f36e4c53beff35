// P21 Message expiry is respected.
#include "mqtt.h"
#include "model.h"
using namespace mc;
using namespace mq;
enum { LIVE, QUEUE, UNACKED, RETAINED, WILL_LIVE, WILL_DELAYED, WILL_QUEUE, WILL_RETAINED, NPLACES };
static const char *pname[] = {"live", "offline queue", "sent but unacknowledged", "retained", "will at once", "delayed will", "queued will", "retained will"};
CHECK(P21, "")
{
    static const int waits[] = {0, 5, 12, 95, 102, 103, 4990, 5012};
    int place = choose(NPLACES, "place"), interval = (int[]){10, 100, 5000, 0}[choose(4, "interval")];
    int q = 1 + choose(2, "qos");
    int subver = choose(2, "subscriber") ? 5 : 4, mate = choose(2, "second subscriber");
    bool restart = choose(2, "restart");
    bool ceiling = place == RETAINED ? choose(2, "retained ceiling") : false;
    Server srv; std::string conf = "storage_dir /mcfs/store\n"; if (ceiling) conf += "expire_retained_messages_after_seconds 90\n";
    REQUIRE(srv.start(conf), "boot", "no start");
    note("%s, interval %d, qos %d, subscriber %d%s%s%s", pname[place], interval, q, subver, mate ? "+mate" : "", restart ? ", restart" : "", ceiling ? ", retained at most 90 s" : "");
    Cl p("P", 5), s("S", subver), m("M", mate ? 5 : 4);
    s.o.clean = m.o.clean = false; if (subver == 5) s.o.props = {pn(P_SESSEXP, 90000)}; if (m.v5()) m.o.props = {pn(P_SESSEXP, 90000)};
    REQUIRE(s.connect() && m.connect(), "connect", "S");
    bool retained = place == RETAINED || place == WILL_RETAINED;
    if (!retained) REQUIRE(s.subscribe({{"t", 2}}) && m.subscribe({{"t", 2}}), "suback", "no");
    bool offline = place == QUEUE || place == WILL_QUEUE;
    if (offline || retained) { s.close(); m.close(); settle(); }
    Props pr; if (interval) pr.push_back(pn(P_EXPIRY, interval));
    bool will = place >= WILL_LIVE; uint64_t t0;
    if (will) {
        p.o.clean = true; p.o.props = {pn(P_SESSEXP, 90000)}; Props wp = pr; if (place == WILL_DELAYED) wp.push_back(pn(P_WILLDELAY, 30));
        p.o.will = Will{"t", "x", q, place == WILL_RETAINED, wp};
        REQUIRE(p.connect(), "connect", "P");
        // how long the client has been connected does not count
        int before = (int[]){0, 60, 300}[choose(3, "connected for")]; note("connected for %d s", before);
        if (before) { p.o.keepalive = 60000; advance(before * 1000); }
        if (restart && place != WILL_DELAYED && place != WILL_QUEUE && place != WILL_RETAINED) prune();
        if (restart && place == WILL_DELAYED) { // the server goes down while the will is waiting
            p.close(); settle(); advance(3000); REQUIRE(srv.stop(), "stop", "no clean exit"); advance(2000); REQUIRE(srv.start(conf), "boot", "no restart"); note("restart while the will is waiting");
            s.o.clean = m.o.clean = false; s.rbuf.clear(); m.rbuf.clear(); s.rx.clear(); m.rx.clear(); REQUIRE(s.connect() && m.connect(), "connect", "S");
            uint64_t t = sim::now_ns(); std::vector<Pkt> v;
            for (int i = 0; i < 60 && v.empty(); i++) { advance(1000); v = s.publishes(); }
            REQUIRE(v.size() == 1 && v[0].payload == "x", "will-lost", "%zu messages instead of the will after the restart", v.size());
            (void)t; if (s.v5()) { auto e = find(v[0].props, P_EXPIRY); REQUIRE(!!e == !!interval, "interval", "will came %s expiry", e ? "with" : "without"); if (e) REQUIRE((int)e->num >= interval - 4 && (int)e->num <= interval, "interval", "will was published with expiry %u instead of %d", e->num, interval); }
            return;
        }
        p.close(); settle();
        if (place == WILL_DELAYED) advance(34000);
        t0 = sim::now_ns();
    } else {
        if (place == LIVE && restart) prune();
        REQUIRE(p.connect(), "connect", "P"); t0 = sim::now_ns();
        REQUIRE(p.publish("t", "x", q, place == RETAINED, pr), "publish", "not acknowledged");
    }
    auto judge = [&](Cl &c, const std::vector<Pkt> &v, int64_t elapsed, int slack) {
        int64_t limit = interval ? interval : INT64_MAX / 2; if (ceiling) limit = std::min<int64_t>(limit, 90);
        REQUIRE(v.size() <= 1, "twice", "%zu copies", v.size());
        if (elapsed < limit - 1 - slack) REQUIRE(v.size() == 1, "lost", "%s: message was not delivered to %s %lld s after it was published with expiry %d", pname[place], c.name.c_str(), (long long)elapsed, interval);
        if (elapsed > limit + 1) REQUIRE(v.empty(), "expired", "%s: message was delivered to %s %lld s after it was published with expiry %d%s", pname[place], c.name.c_str(), (long long)elapsed, interval, ceiling ? " and at most 90 for retained ones" : "");
        if (v.empty()) { count("kept-back"); return; }
        count("delivered");
        auto e = find(v[0].props, P_EXPIRY);
        if (!c.v5()) { REQUIRE(!e, "interval", "expiry towards MQTT 3"); return; }
        if (interval || ceiling) { REQUIRE(e, "interval", "no expiry interval"); int64_t want = limit - elapsed; REQUIRE((int64_t)e->num >= want - 2 - slack && (int64_t)e->num <= want + 1, "interval", "%s: delivered to %s after %lld s with expiry %u instead of %lld", pname[place], c.name.c_str(), (long long)elapsed, e->num, (long long)want); }
        else if (!retained) REQUIRE(!e, "interval", "expiry %u on a message published without", e->num);
    };
    if (place == LIVE || place == WILL_LIVE || place == WILL_DELAYED) { judge(s, s.publishes(), 0, 4); judge(m, m.publishes(), 0, 4); return; }
    int wait = waits[choose(8, "wait")];
    if (place == UNACKED) { auto a = s.publishes(false), b = m.publishes(false); judge(s, a, 0, 0); judge(m, b, 0, 0); s.close(); m.close(); settle(); }
    note("after %d s", wait);
    if (restart) {
        int w1 = choose(2, "down for") ? wait : wait / 2; advance(w1 * 1000);
        REQUIRE(srv.stop(), "stop", "no clean exit"); note("down for %d s", wait - w1); advance((wait - w1) * 1000);
        REQUIRE(srv.start(conf), "boot", "no restart");
    } else if (wait) advance(wait * 1000);
    int64_t elapsed = (sim::now_ns() - t0) / 1000000000ull;
    s.rbuf.clear(); m.rbuf.clear(); s.rx.clear(); m.rx.clear();
    REQUIRE(s.connect() && m.connect(), "connect", "S");
    if (retained) { REQUIRE(s.subscribe({{"t", 2}}) && m.subscribe({{"t", 2}}), "suback", "no"); advance(100); }
    int slack = restart ? 2 : 0; // file times are whole seconds
    judge(s, s.publishes(), elapsed, slack); judge(m, m.publishes(), elapsed, slack);
}
