// P02 Subscription grants and options.
#include "broker.h"
using namespace mc;
using namespace mq;
using namespace model;

static void on(Cl &c, Broker &b, bool clean, uint64_t exp)
{
    c.o.clean = clean; c.o.props.clear();
    if (c.v5() && exp) c.o.props.push_back(pn(P_SESSEXP, exp));
    b.connect(c.o.id, c.o.ver, clean, exp);
    REQUIRE(c.connect(), "connect", "%s not accepted", c.name.c_str());
}
// every combination of option, QoS, version, sender and presence for one subscription
static void matrix()
{
    int sv = 3 + choose(3, "subscriber version"), sq = choose(3, "granted QoS"), nl = sv == 5 ? choose(2, "no local") : 0, rap = sv == 5 ? choose(2, "retain as published") : 0;
    static const uint32_t ids[] = {0, 1, 268435455};
    uint32_t id = sv == 5 ? ids[choose(3, "subscription identifier")] : 0;
    int offline = choose(2, "subscriber offline");
    Broker b;
    Cl s("S", sv), p3("P3", 3), p4("P4", 4), p5("P5", 5), o("O", 4);
    on(s, b, sv == 5 ? true : false, 1000); on(p3, b, true, 0); on(p4, b, true, 0); on(p5, b, true, 0); on(o, b, true, 0);
    std::vector<int> rc;
    Props pr; if (id) pr.push_back(pn(P_SUBID, id));
    REQUIRE(s.subscribe({{"t/+", sq, nl != 0, rap != 0, 0}}, pr, &rc), "suback", "no SUBACK");
    REQUIRE(rc[0] == sq, "granted", "granted %d for %d", rc[0], sq);
    b.subscribe("S", {"t/+", sq, nl != 0, rap != 0, id});
    // another subscriber, so that the message is copied for several receivers
    REQUIRE(o.subscribe({{"t/#", 1}}), "suback", "no SUBACK"); b.subscribe("O", {"t/#", 1});
    note("subscriber v%d qos %d nl %d rap %d id %u offline %d", sv, sq, nl, rap, id, offline);
    int n = 0;
    std::vector<Cl*> from{&p3, &p4, &p5};
    if (!offline) from.push_back(&s);
    if (offline) { s.close(); settle(); b.offline("S"); }
    for (Cl *f : from) for (int q = 0; q < 3; q++) for (int r = 0; r < 2; r++) {
        std::string t = "t/" + std::to_string(n % 5), pl = "m" + std::to_string(n); n++;
        b.publish(f->o.id, t, pl, q, r);
        unsigned pid = f->next_id;
        f->pub(t, pl, q, r); settle();
        if (q) { auto a = f->pop(q == 1 ? PUBACK : PUBREC); REQUIRE(a && a->id == pid, "publish-ack", "no acknowledgement"); }
        if (q == 2) { f->raw(ack(f->o.ver, PUBREL, pid)); settle(); auto a = f->pop(PUBCOMP); REQUIRE(a && a->id == pid, "publish-ack", "no PUBCOMP"); }
        if (!offline) compare("delivery", s, b, "live delivery");
        compare("delivery-other", o, b, "live delivery to the other client");
    }
    if (offline) {
        on(s, b, false, 1000);
        compare("queued", s, b, "after the subscriber came back");
    }
}
// one SUBSCRIBE with several filters
static void several()
{
    int sv = 4 + choose(2, "version");
    static const Filter fs[] = {{"t/a", 0}, {"t/a", 2}, {"t/a", 1}, {"t/+", 1}, {"t/#", 2}, {"u", 0}};
    int n = 1 + choose(3, "number of filters");
    std::vector<Filter> v;
    for (int i = 0; i < n; i++) v.push_back(fs[choose(6, "filter")]);
    Broker b; Cl s("S", sv), p("P", 5);
    on(s, b, true, 0); on(p, b, true, 0);
    std::vector<int> rc;
    std::string d;
    for (auto &f : v) d += f.f + ":" + std::to_string(f.qos) + " ";
    note("SUBSCRIBE %s v%d", d.c_str(), sv);
    REQUIRE(s.subscribe(v, {}, &rc), "suback", "no SUBACK");
    for (int i = 0; i < n; i++) { REQUIRE(rc[i] == v[i].qos, "granted", "filter %d granted %d instead of %d (%s)", i, rc[i], v[i].qos, d.c_str()); b.subscribe("S", {v[i].f, v[i].qos}); }
    auto probe = [&](const char *w) { for (auto t : {"t/a", "t/b", "u"}) { b.publish("P", t, "x", 2); REQUIRE(p.publish(t, "x", 2), "publish", "not acknowledged"); } compare("several", s, b, w); };
    probe(d.c_str());
    // UNSUBSCRIBE with several filters, one of them unknown
    std::vector<std::string> u; for (int i = 0; i < n; i++) if (i != 1) u.push_back(v[i].f);
    u.push_back("nope");
    std::vector<int> uc;
    REQUIRE(s.unsubscribe(u, &uc), "unsuback", "no UNSUBACK");
    for (auto &f : u) b.unsubscribe("S", f);
    probe("after UNSUBSCRIBE");
}
static void sequences()
{
    Broker b; Cl s("S", 5), p("P", 5);
    bool online = true; int n = 0;
    on(s, b, true, 1000); on(p, b, true, 0);
    struct V { Filter f; uint32_t id; const char *d; };
    static const V vs[] = {
        {{"t/a", 1, false, false, 0}, 0, "sub t/a q1"}, {{"t/a", 0, true, true, 1}, 7, "sub t/a q0 nl rap rh1 id7"}, {{"t/a", 2, false, true, 2}, 9, "sub t/a q2 rap rh2 id9"},
        {{"t/#", 2, true, false, 1}, 0, "sub t/# q2 nl rh1"}, {{"t/+", 1, false, true, 0}, 200, "sub t/+ q1 rap id200"}};
    int depth = param("depth", thorough() ? 6 : 5);
    for (int i = 0; i < depth; i++) {
        int k = choose(12, "operation");
        if (k < 5) {
            if (!online) prune();
            const V &v = vs[k]; note("%s", v.d);
            Props pr; if (v.id) pr.push_back(pn(P_SUBID, v.id));
            std::vector<int> rc;
            REQUIRE(s.subscribe({v.f}, pr, &rc), "suback", "no SUBACK");
            REQUIRE(rc[0] == v.f.qos, "granted", "granted %d", rc[0]);
            Sub m{v.f.f, v.f.qos, v.f.nl, v.f.rap, v.id};
            bool isnew = b.subscribe("S", m);
            if (v.f.rh == 0 || (v.f.rh == 1 && isnew)) b.give_retained("S", m);
        } else if (k == 5 || k == 6) {
            if (!online) prune();
            const char *f = k == 5 ? "t/a" : "t/#"; note("unsub %s", f);
            REQUIRE(s.unsubscribe({f}), "unsuback", "no UNSUBACK"); b.unsubscribe("S", f);
        } else if (k == 7) {
            note("subscriber toggles");
            if (online) { s.close(); settle(); b.offline("S"); online = false; } else { on(s, b, false, 1000); online = true; }
        } else if (k == 8 || k == 9) {
            std::string pl = "m" + std::to_string(n++); note("P publishes t/a%s q%d", k == 9 ? " retained" : "", k == 9 ? 2 : 1);
            b.publish("P", "t/a", pl, k == 9 ? 2 : 1, k == 9); REQUIRE(p.publish("t/a", pl, k == 9 ? 2 : 1, k == 9), "publish", "not acknowledged");
        } else if (k == 11) {
            std::string pl = "m" + std::to_string(n++); note("the will of W on t/a q1");
            Cl w("W", 5); w.o.will = Will(); w.o.will->topic = "t/a"; w.o.will->payload = pl; w.o.will->qos = 1;
            REQUIRE(w.connect(), "connect", "W not accepted");
            w.close(); settle(); b.publish("W", "t/a", pl, 1);
        } else {
            if (!online) prune();
            std::string pl = "m" + std::to_string(n++); note("S publishes t/a q1");
            b.publish("S", "t/a", pl, 1); REQUIRE(s.publish("t/a", pl, 1), "publish", "not acknowledged");
        }
        if (online) compare("sequence", s, b, "after an operation");
    }
    if (!online) { on(s, b, false, 1000); online = true; compare("sequence-queued", s, b, "after reconnecting"); }
    b.publish("P", "t/a", "end", 2, false); REQUIRE(p.publish("t/a", "end", 2), "publish", "not acknowledged");
    b.publish("S", "t/b", "end2", 2, false); REQUIRE(s.publish("t/b", "end2", 2), "publish", "not acknowledged");
    compare("sequence", s, b, "final publishes");
    note("model %s", b.text().c_str());
}
CHECK(P02, "")
{
    Server s;
    REQUIRE(s.start(), "boot", "server did not start (exit code %d)", s.exit_code);
    switch (choose(3, "part")) { case 0: matrix(); break; case 1: several(); break; default: sequences(); }
}
