// P03 Retained messages.
#include "broker.h"
using namespace mc;
using namespace mq;
using namespace model;
static void on(Cl &c, Broker &b, bool clean = true, uint64_t exp = 0)
{
    c.o.clean = clean; c.o.props.clear();
    if (c.v5() && exp) c.o.props.push_back(pn(P_SESSEXP, exp));
    b.connect(c.o.id, c.o.ver, clean, exp);
    REQUIRE(c.connect(), "connect", "%s not accepted", c.name.c_str());
}
// a full set of retained topics against every filter
static void matrix()
{
    auto topics = paths({"a", "b", ""}, 3); topics.erase(std::remove(topics.begin(), topics.end(), ""), topics.end());
    auto f0 = paths({"a", "b", "+", ""}, 3); std::vector<std::string> fs;
    for (auto &f : f0) if (!f.empty()) fs.push_back(f);
    fs.push_back("#"); for (auto &f : paths({"a", "+", ""}, 2)) fs.push_back(f + "/#");
    fs.push_back("$s/#"); fs.push_back("$s/+");
    int k = choose(fs.size(), "filter"), sv = 4 + choose(2, "version");
    Broker b; Cl p("P", 5), s("S", sv);
    on(p, b); on(s, b);
    int n = 0;
    for (auto &t : topics) { std::string pl = "m" + std::to_string(n); int q = n % 3; if (n % 7 != 3) { b.publish("P", t, pl, q, true); REQUIRE(p.publish(t, pl, q, true), "publish", "not acknowledged"); } n++; }
    for (size_t i = 0; i < topics.size(); i += 5) { b.publish("P", topics[i], "", 1, true); REQUIRE(p.publish(topics[i], "", 1, true), "publish", "not acknowledged"); }
    Sub m{fs[k], 1};
    note("filter %s v%d", fs[k].c_str(), sv);
    REQUIRE(s.subscribe({{fs[k], 1}}), "suback", "no SUBACK"); b.subscribe("S", m); b.give_retained("S", m);
    compare("retained-match", s, b, fs[k].c_str());
    advance(3000); compare("retained-late", s, b, "3 s later");
}
static void sequences()
{
    Broker b; Cl p("P", 5), q("Q", 4), s("S", 5), o("O", 4);
    on(p, b); on(q, b); on(s, b, true, 100000); on(o, b);
    bool online = true; int n = 0;
    struct Pb { Cl *c; const char *t; int q; bool r, empty; int exp; };
    const Pb pbs[] = {{&p, "a", 0, true, false, 0}, {&q, "a", 2, true, false, 0}, {&p, "a/b", 1, true, false, 5}, {&q, "a", 1, true, true, 0}, {&p, "a/b", 0, true, true, 0}, {&p, "a/b", 1, false, false, 0}, {&p, "$x", 0, true, false, 0}};
    struct Sb { Cl *c; Filter f; };
    const Sb sbs[] = {{&s, {"a/#", 1, false, false, 0}}, {&s, {"a/#", 2, false, true, 1}}, {&s, {"+", 0, false, false, 2}}, {&o, {"#", 2, false, false, 0}}, {&o, {"a/+", 0, false, false, 0}}};
    int depth = param("depth", thorough() ? 6 : 4);
    for (int i = 0; i < depth; i++) {
        int k = choose(16, "operation");
        if (k < 7) {
            const Pb &x = pbs[k]; std::string pl = x.empty ? "" : "m" + std::to_string(n++);
            note("%s publishes %s%s '%s' q%d expiry %d", x.c->name.c_str(), x.t, x.r ? " retained" : "", pl.c_str(), x.q, x.exp);
            Props pr; if (x.exp) pr.push_back(pn(P_EXPIRY, x.exp));
            b.publish(x.c->o.id, x.t, pl, x.q, x.r, x.exp ? x.exp : UINT64_MAX);
            REQUIRE(x.c->publish(x.t, pl, x.q, x.r, pr), "publish", "not acknowledged");
        } else if (k < 12) {
            const Sb &x = sbs[k - 7];
            if (x.c == &s && !online) prune();
            note("%s subscribes %s q%d rap%d rh%d", x.c->name.c_str(), x.f.f.c_str(), x.f.qos, x.f.rap, x.f.rh);
            REQUIRE(x.c->subscribe({x.f}), "suback", "no SUBACK");
            Sub m{x.f.f, x.f.qos, false, x.f.rap, 0};
            bool isnew = b.subscribe(x.c->o.id, m);
            if (x.f.rh == 0 || (x.f.rh == 1 && isnew)) b.give_retained(x.c->o.id, m);
        } else if (k == 12) { if (!online) prune(); note("S unsubscribes a/#"); REQUIRE(s.unsubscribe({"a/#"}), "unsuback", "no UNSUBACK"); b.unsubscribe("S", "a/#"); }
        else if (k == 13) { note("S toggles"); if (online) { s.close(); settle(); b.offline("S"); online = false; } else { on(s, b, false, 100000); online = true; } }
        else if (k == 14) { note("7 s pass"); advance(7000); }
        else { note("4100 s pass"); advance(4100 * 1000ull); }   // the broker tidies its retained tree
        if (online) compare("sequence", s, b, "after an operation");
        compare("sequence-v4", o, b, "after an operation");
    }
    Cl z("Z", 5); on(z, b);
    REQUIRE(z.subscribe({{"#", 2}}), "suback", "no SUBACK"); Sub m{"#", 2}; b.subscribe("Z", m); b.give_retained("Z", m);
    compare("final", z, b, "a new subscriber to #");
    note("model %s", b.text().c_str());
}
// more retained messages than the client's limits, its socket or the time slice allow at once: the rest comes later
static void deferred()
{
    static const char *filters[] = {"#", "r/#", "+/+/x", "r/+/x", "r/+", "+", "r/+/#", "r/a3/+"};
    static const int ns[] = {3, 6, 40};
    std::string f = filters[choose(8, "filter")]; int kind = choose(6, "kind"), n = ns[choose(3, "number")], q = choose(3, "qos"), sv = choose(2, "version") ? 5 : 4;
    if (kind < 2 && (sv == 4 || q == 0)) prune(); if (kind == 2 && q == 0) prune();
    Server srv; REQUIRE(srv.start("max_qos_msg_pending_per_client 32\nclient_max_write_buffer_size 4096\nclient_initial_buffer_size 128\n"), "boot", "no start");
    Broker b; Cl p("P", 5), s("S", sv); on(p, b);
    s.o.clean = true; if (kind < 2) s.o.props.push_back(pn(P_RECVMAX, kind == 0 ? 1 : 3)); b.connect("S", sv, true, 0); REQUIRE(s.connect(), "connect", "S");
    std::vector<std::string> t = {"r", "r/", "o/a/x"}; for (int i = 0; i < n; i++) { std::string a = "r/a" + std::to_string(i); t.push_back(a + "/x"); if (i % 2) t.push_back(a); if (i % 3 == 0) t.push_back(a + "/y"); if (i == 3) for (int j = 0; j < n; j++) t.push_back(a + "/k" + std::to_string(j)); }
    std::string pad(kind == 5 ? 200 : 0, 'p'); int m = 0;
    for (auto &x : t) { std::string pl = "m" + std::to_string(m++) + pad; b.publish("P", x, pl, q, true); REQUIRE(p.publish(x, pl, q, true), "publish", "not acknowledged"); }
    note("%s, %zu retained messages, q%d, v%d, kind %d", f.c_str(), t.size(), q, sv, kind);
    if (kind == 3) sim::clock_step_ns = 3000000; if (kind == 4) sim::clock_step_ns = 6000000;
    if (kind == 5) s.c->out_space = 300;
    s.sub({{f, q}}); Sub sub{f, q}; b.subscribe("S", sub); b.give_retained("S", sub);
    std::vector<Pkt> got; int idle = 0; bool suback = false;
    for (int i = 0; i < 400 && idle < 4; i++) {
        settle(); bool any = false;
        for (auto &x : s.all()) { any = true; if (x.type == SUBACK) { suback = true; continue; } if (x.type == PUBLISH) { REQUIRE(suback, "order", "message before the SUBACK"); got.push_back(x); if (x.qos) s.raw(ack(sv, x.qos == 1 ? PUBACK : PUBREC, x.id)); } else if (x.type == PUBREL) s.raw(ack(sv, PUBCOMP, x.id)); }
        idle = any ? 0 : idle + 1; if (kind == 5) { s.c->out_space = 300; sim::feed(s.c, ""); } advance(60);
    }
    sim::clock_step_ns = 50;
    for (auto &x : got) s.rx.push_back(x);
    std::vector<std::string> want, have; for (auto &d : b.ses["S"].expect) want.push_back(d.topic + "=" + d.payload + " q" + std::to_string(d.qos)); for (auto &x : got) { have.push_back(x.topic + "=" + x.payload + " q" + std::to_string(x.qos)); REQUIRE(x.retain, "flag", "retain flag missing"); }
    size_t nw = want.size(); std::sort(want.begin(), want.end()); std::sort(have.begin(), have.end());
    REQUIRE(want == have, "deferred", "%zu of %zu retained messages arrived (or others): %s", have.size(), nw, model::join(have).c_str());
    if (nw > 30) count("long"); 
}
CHECK(P03, "")
{
    Server s;
    int part = choose(3, "part"); if (part == 2) { deferred(); return; }
    REQUIRE(s.start(), "boot", "server did not start (exit code %d)", s.exit_code);
    if (part == 0) matrix(); else sequences();
}
