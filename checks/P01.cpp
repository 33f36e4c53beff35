// P01 Messages reach exactly the matching subscribers.
#include "broker.h"
using namespace mc;
using namespace mq;
using namespace model;

static std::vector<std::string> filters(const std::vector<std::string> &tokens, int depth)
{
    std::vector<std::string> v = paths(tokens, depth), r;
    for (auto &f : v) if (!f.empty()) r.push_back(f);
    r.push_back("#");
    for (auto &f : paths(tokens, depth - 1)) r.push_back(f + "/#");
    return r;
}
static void pub_all(Cl &p, Broker &b, const std::vector<std::string> &topics, int &n)
{
    for (auto &t : topics) { std::string pl = "m" + std::to_string(n++); p.pub(t, pl); b.publish(p.o.id, t, pl, 0); }
    settle();
}
// one client per protocol version holds the filters; everything is published
static void matrix(Server &, const std::vector<std::string> &fs, const std::vector<std::string> &topics)
{
    Cl a("A", 4), c5("B", 5), p("P", 4), noise("N", 3);
    Broker b;
    for (Cl *c : {&a, &c5, &p, &noise}) { REQUIRE(c->connect(), "connect", "%s not accepted", c->name.c_str()); b.connect(c->o.id, c->o.ver, true, 0); }
    for (auto &f : {std::string("a/b/#"), std::string("+/+")}) { REQUIRE(noise.subscribe({{f, 0}}), "suback", "no SUBACK"); b.subscribe("N", {f, 0}); }
    int n = 0;
    for (Cl *c : {&a, &c5}) for (auto &f : fs) { REQUIRE(c->subscribe({{f, 0}}), "suback", "no SUBACK for %s", f.c_str()); b.subscribe(c->o.id, {f, 0}); }
    note("filters %s", join(fs).c_str());
    pub_all(p, b, topics, n);
    for (Cl *c : {&a, &c5, &noise, &p}) compare("match", *c, b, ("with filters " + join(fs)).c_str());
    // after removing the first filter only the others are left
    REQUIRE(a.unsubscribe({fs[0]}), "unsuback", "no UNSUBACK"); b.unsubscribe("A", fs[0]);
    pub_all(p, b, topics, n);
    for (Cl *c : {&a, &c5, &noise, &p}) compare("match-unsub", *c, b, ("after unsubscribing from " + fs[0]).c_str());
    // and a client that is gone receives nothing, while the other still does
    c5.close(); settle(); b.offline("B");
    pub_all(p, b, topics, n);
    for (Cl *c : {&a, &noise, &p}) compare("match-gone", *c, b, "after the other client left");
}
static void sequences(Server &)
{
    Broker b; int n = 0;
    Cl a("A", 5), c("B", 4), p("P", 5);
    a.o.clean = false; a.o.props = {pn(P_SESSEXP, 1000)};
    bool on_a = false, on_b = false;
    auto conn = [&](Cl &x, bool &on, bool clean, uint64_t exp) {
        x.o.clean = clean;
        b.expire();
        bool sp = b.connect(x.o.id, x.o.ver, clean, exp);
        REQUIRE(x.connect(), "connect", "%s not accepted", x.name.c_str());
        REQUIRE(x.connack.sp == sp, "session-present", "%s: session present %d instead of %d", x.name.c_str(), x.connack.sp, sp);
        on = true;
    };
    bool on_p; conn(p, on_p, true, 0); conn(a, on_a, false, 1000); conn(c, on_b, true, 0);
    int depth = param("depth", thorough() ? 6 : 4);
    auto pub = [&](Cl &x, const char *t, int q) { std::string pl = "m" + std::to_string(n++); b.publish(x.o.id, t, pl, q); REQUIRE(x.publish(t, pl, q), "puback", "publish not acknowledged"); };
    auto check = [&](const char *w) { if (on_a) compare("delivery", a, b, w); if (on_b) compare("delivery", c, b, w); compare("delivery", p, b, w); };
    auto sub = [&](Cl &x, const char *f, int q) { std::vector<int> rc; REQUIRE(x.subscribe({{f, q}}, {}, &rc), "suback", "no SUBACK"); REQUIRE(rc[0] == q, "suback-code", "granted %d for %d", rc[0], q); b.subscribe(x.o.id, {f, q}); };
    auto unsub = [&](Cl &x, const char *f) { REQUIRE(x.unsubscribe({f}), "unsuback", "no UNSUBACK"); b.unsubscribe(x.o.id, f); };
    for (int i = 0; i < depth; i++) {
        int k = choose(13, "operation");
        static const char *names[] = {"A sub a/+", "A sub a/#", "A unsub a/+", "A unsub a/#", "B sub a/b", "B unsub a/b", "B closes or connects", "A closes or connects", "A connects clean", "P publishes a/b", "P publishes a", "B publishes a/b", "1900 s pass"};
        note("%s", names[k]);
        switch (k) {
        case 0: case 1: if (!on_a) prune(); sub(a, k ? "a/#" : "a/+", k ? 2 : 1); break;
        case 2: case 3: if (!on_a) prune(); unsub(a, k == 3 ? "a/#" : "a/+"); break;
        case 4: if (!on_b) prune(); sub(c, "a/b", 1); break;
        case 5: if (!on_b) prune(); unsub(c, "a/b"); break;
        case 6: if (on_b) { c.close(); settle(); b.offline("B"); on_b = false; } else conn(c, on_b, true, 0); break;
        case 7: if (on_a) { a.close(); settle(); b.offline("A"); on_a = false; } else conn(a, on_a, false, 1000); break;
        case 8: conn(a, on_a, true, 1000); break;
        case 9: pub(p, "a/b", 1); break;
        case 10: pub(p, "a", 2); break;
        case 11: if (!on_b) prune(); pub(c, "a/b", 1); break;
        case 12: advance(1900 * 1000ull); b.expire(); break;
        }
        check(names[k]);
    }
    pub(p, "a/b", 1); pub(p, "a", 1); pub(p, "a/b/c", 0);
    check("final publishes");
    note("model %s", b.text().c_str());
}
static void dollar(Server &)
{
    static const char *fs[] = {"#", "+/#", "+/broker/#", "+", "$SYS/#", "$SYS/broker/+", "$SYS/broker/uptime", "$SYS/+/uptime", "$sys/#", "$SYS/broker/clients/#"};
    int k = choose(10, "filter");
    Cl a("A", 5), t("T", 4);
    REQUIRE(a.connect() && t.connect(), "connect", "not accepted");
    REQUIRE(t.subscribe({{"$SYS/#", 0}}) && a.subscribe({{fs[k], 0}}), "suback", "no SUBACK");
    t.publishes(); a.publishes();
    advance(10500);
    std::vector<std::string> all, got, want;
    for (auto &p : t.publishes()) all.push_back(p.topic);
    for (auto &p : a.publishes()) got.push_back(p.topic);
    REQUIRE(all.size() > 5, "sys", "no statistics were published");
    for (auto &x : all) if (matches(fs[k], x)) want.push_back(x);
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    note("filter %s: %zu of %zu", fs[k], got.size(), all.size());
    REQUIRE(got == want, "dollar", "filter %s: received %s but should have received %s", fs[k], join(got).c_str(), join(want).c_str());
}
CHECK(P01, "")
{
    Server s;
    REQUIRE(s.start(), "boot", "server did not start (exit code %d)", s.exit_code);
    auto topics = paths({"a", "b", "$s", ""}, 3); topics.erase(std::remove(topics.begin(), topics.end(), ""), topics.end());
    switch (choose(4, "part")) {
    case 0: { auto f = filters({"a", "+", "$s", "", "b"}, 3); matrix(s, {f[choose(f.size(), "filter")]}, topics); break; }
    case 1: { auto f = filters({"a", "+", "$s"}, thorough() ? 3 : 2); int i = choose(f.size(), "filter 1"), j = choose(f.size(), "filter 2"); if (i == j) prune(); matrix(s, {f[i], f[j]}, topics); break; }
    case 2: dollar(s); break;
    default: sequences(s);
    }
}
