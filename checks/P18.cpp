// P18 Messages of one publisher arrive in order.
#include "conc.h"
#include <set>
using namespace mc;
using namespace mq;
static int number(const std::string &pl, char who) { return pl.size() > 1 && pl[0] == who ? atoi(pl.c_str() + 1) : -1; }
// A subscriber that keeps everything it got per connection, and acknowledges (or doesn't yet).
struct Rcv {
    Cl *c; size_t at = 0; bool acking = true; std::vector<Pkt> got;
    explicit Rcv(Cl &x) : c(&x) {}
    void react() { if (!c->c) return; c->pump(); REQUIRE(c->decode_error.empty(), "garbage", "%s", c->decode_error.c_str()); if (c->closed()) { collect(); return; } collect(); if (!acking) return;
        for (; at < c->rx.size(); at++) { Pkt p = c->rx[at]; if (p.type == PUBLISH && p.qos == 1) c->raw(ack(c->o.ver, PUBACK, p.id)); if (p.type == PUBLISH && p.qos == 2) c->raw(ack(c->o.ver, PUBREC, p.id)); if (p.type == PUBREL) c->raw(ack(c->o.ver, PUBCOMP, p.id)); } }
    size_t collected = 0; void collect() { for (; collected < c->rx.size(); collected++) if (c->rx[collected].type == PUBLISH) got.push_back(c->rx[collected]); }
};
static std::string list(const std::vector<Pkt> &v) { std::string s; for (auto &p : v) s += p.payload + (p.dup ? "(dup) " : " "); return s; }
// On each connection a publisher's messages come in order, each once; over the connections together, no later one is seen for the first time before an earlier one.
static void in_order(const std::vector<std::vector<Pkt>> &conns, char who, const std::string &topic, int qos, const std::string &sch, int times = 1)
{
    int first = 0; std::set<int> seen;
    for (auto &v : conns) { int last = 0, n = 0; std::string l = list(v); for (auto &p : v) { if (p.topic != topic || p.qos != qos) continue; int k = number(p.payload, who); if (k < 0) continue; if (k == last && ++n <= times) continue; n = 1;
        REQUIRE(k != last, "twice", "%s was sent more often than there are subscriptions on one connection: %s; schedule %s", p.payload.c_str(), l.c_str(), sch.c_str()); REQUIRE(k > last, "order", "on one connection: %s; schedule %s", l.c_str(), sch.c_str()); last = k; if (!seen.count(k)) { REQUIRE(k > first, "order", "%s came for the first time after a later one: %s; schedule %s", p.payload.c_str(), l.c_str(), sch.c_str()); first = k; seen.insert(k); } } }
}
static const char *KIND[] = {"3.1.1 clean", "3.1.1 persistent", "5 persistent", "5 persistent, receive maximum 1", "5 persistent, receive maximum 2", "3.1.1 persistent, acknowledging nothing", "5 clean, a small send buffer"};
static const char *EV[] = {"nothing", "subscribes elsewhere", "another publisher", "is taken over", "comes back", "goes and comes back", "shared subscription", "overlapping subscriptions", "another subscriber comes"};
static void live()
{
    int budget = param("budget", thorough() ? 2 : 1); int qos = choose(3, "QoS"), kind = choose(7, "kind"), ev = choose(9, "at the same time"); bool paced = choose(2, "paced"), swap = choose(2, "threads"); bool persist = kind != 0 && kind != 6; if ((ev == 3 || ev == 4 || ev == 5) && !persist) prune(); if (!qos && (kind == 3 || kind == 4 || kind == 5)) prune(); if (!thorough() && ((paced && (qos != 1 || ev != 5)) || (swap && kind != 1) || (kind == 4 && ev != 4) || (kind == 6 && ev > 2))) prune();
    Server s; REQUIRE(s.start("expire_sessions_after_seconds 100000\n"), "boot", "no"); Cl F("filler", 4); auto setup = [&](Cl &c) { c.o.id = "S"; c.o.ver = kind == 0 || kind == 1 || kind == 5 ? 4 : 5; c.o.clean = !persist; c.o.keepalive = c.o.ver == 5 ? 60000 : 0; c.o.props.clear(); if (c.o.ver == 5 && persist) c.o.props.push_back(pn(P_SESSEXP, 1000)); if (kind == 3 || kind == 4) c.o.props.push_back(pn(P_RECVMAX, kind - 2)); };
    if (swap) REQUIRE(F.connect(), "setup", "no"); Cl S("S"), S2("S"), P("P", 4), Q("Q", 4), G("G", 4), N("N", 4); setup(S); setup(S2); REQUIRE(S.connect(), "setup", "no"); REQUIRE(S.subscribe({{ev == 6 ? "$share/g/t" : "t", qos}}), "setup", "no"); if (ev == 7) REQUIRE(S.subscribe({{"+", qos}}), "setup", "no");
    REQUIRE(P.connect(), "setup", "no"); REQUIRE(Q.connect(), "setup", "no"); if (ev == 6) { REQUIRE(G.connect(), "setup", "no"); REQUIRE(G.subscribe({{"$share/g/t", qos}}), "setup", "no"); }
    Rcv r(S), r2(S2), rg(G), rn(N); r.acking = kind != 5; r2.acking = true; int k = 1; note("QoS %d; subscriber: %s; at the same time: %s; %s", qos, KIND[kind], EV[ev], paced ? "paced" : "at once");
    if (ev == 4) { r.react(); S.disconnect(); settle(); for (int i = 0; i < 2; i++) REQUIRE(P.publish("t", "p" + std::to_string(k++), qos), "setup", "no"); }
    if (kind == 6) S.c->out_space = 30; Actor p, e; auto send = [&](unsigned id) { P.pub("t", "p" + std::to_string(k++), qos, false, {}, id); }; unsigned done = 0;
    if (!paced || !qos) p.now([&] { for (unsigned i = 0; i < 3; i++) send(100 + i); }); else for (unsigned i = 0; i < 3; i++) p.then([&, i] { return seen(P, qos == 1 ? PUBACK : PUBCOMP) >= i + (ev == 4 && false); }, [&, i] { send(100 + i); });
    if (qos) p.then([&] { return seen(P, qos == 1 ? PUBACK : PUBCOMP) >= 3; }, [] {});
    size_t pat = 0; auto publisher = [&] { P.pump(); for (; pat < P.rx.size(); pat++) if (P.rx[pat].type == PUBREC) P.raw(ack(4, PUBREL, P.rx[pat].id)); (void)done; };
    switch (ev) { case 1: e.now([&] { S.sub({{"u", 1}}); }); break; case 2: e.now([&] { for (int i = 1; i <= 3; i++) Q.pub("t", "q" + std::to_string(i), qos == 2 ? 1 : qos, false, {}, 70 + i); }); break; case 3: e.now([&] { S2.send_connect(); }).then([&] { return has(S2, CONNACK); }, [] {}); break; case 4: e.now([&] { S2.send_connect(); }).then([&] { return has(S2, CONNACK); }, [] {}); break;
        case 5: e.then([&] { return seen(S, PUBLISH) >= 1; }, [&] { S.close(); S2.send_connect(); }).then([&] { return has(S2, CONNACK); }, [] {}); break; case 8: e.now([&] { N.send_connect(); }).then([&] { return has(N, CONNACK); }, [&] { N.sub({{"#", qos}}); }).then([&] { return has(N, SUBACK); }, [] {}); break; }
    auto always = [&] { publisher(); if (ev != 4) r.react(); r2.react(); rg.react(); rn.react(); }; bool ok = run_actors(budget, {&p, &e}, {}, always); std::string sch = sim::schedule_trace(); if (kind == 6) { S.c->out_space = SIZE_MAX; } for (int i = 0; i < 12; i++) { always(); settle(); } REQUIRE(ok, "answer", "a request wasn't answered; schedule %s", sch.c_str());
    if (qos == 2) { publisher(); settle(); } P.rx.clear(); pat = 0; REQUIRE(P.publish("t", "p" + std::to_string(k++), qos), "answer", "PUBACK"); for (int i = 0; i < 8; i++) { always(); settle(); }
    if (kind == 5 && ev != 3 && ev != 4 && ev != 5) { S2.send_connect(); settle(); for (int i = 0; i < 8; i++) { always(); settle(); } } // everything again
    std::vector<std::vector<Pkt>> v{r.got, r2.got}; int times = ev == 7 ? 2 : 1; for (char who : {'p', 'q'}) { in_order(v, who, "t", who == 'q' && qos == 2 ? 1 : qos, sch, times); in_order({rg.got}, who, "t", qos, sch); in_order({rn.got}, who, "t", qos, sch); }
    std::set<int> have; for (auto &x : {r.got, r2.got, rg.got}) for (auto &m : x) have.insert(number(m.payload, 'p')); for (auto &x : v) count("deliveries", x.size());
    if ((qos && kind != 3 && kind != 4) || (!qos && ev != 3 && ev != 4 && ev != 5)) for (int i = 1; i < k; i++) REQUIRE(have.count(i), "lost", "p%d wasn't delivered: first %s, then %s; schedule %s", i, list(r.got).c_str(), list(r2.got).c_str(), sch.c_str());
    if (qos && kind == 5 && !r2.got.empty() && times == 1) REQUIRE(r2.got.size() + 0 >= r.got.size(), "lost", "of %s only %s was sent again", list(r.got).c_str(), list(r2.got).c_str());
    count("schedules with deliveries"); state(std::string(KIND[kind]) + EV[ev] + std::to_string(qos));
}
// ---- the last of a client's retained publishes stays ----
static void retaining()
{
    int budget = param("budget", thorough() ? 3 : 1); int seq = choose(6, "sequence"), d = choose(7, "disturber"), defer = choose(2, "deferred setting"); bool paced = choose(2, "paced"), swap = choose(2, "threads"); int qos = choose(2, "QoS"); if (!thorough() && ((swap && paced) || (qos && seq > 2))) prune();
    static const std::vector<std::vector<std::string>> SEQ = {{"t=1", "t=2"}, {"t=1", "t="}, {"t=", "t=2"}, {"t=1", "t=2", "t=3"}, {"t=1", "u=1", "t=2", "u=2"}, {"t=1", "t=", "t=3"}}; static const char *D[] = {"nothing", "subscribes to #", "sets another", "sets a child", "sets many", "subscribes to t", "removes another"};
    Server s; REQUIRE(s.start(defer ? "set_retained_message_defer_timeout 1000\nset_retained_message_defer_timeout_spread 0\n" : ""), "boot", "no"); Cl F("filler", 4), P("P", 4), B("B", 4); if (swap) REQUIRE(F.connect(), "setup", "no"); REQUIRE(P.connect(), "setup", "no"); REQUIRE(B.connect(), "setup", "no"); if (d == 6) REQUIRE(B.publish("x", "x", 1, true), "setup", "no"); if (choose(2, "present before")) REQUIRE(B.publish("t", "old", 1, true), "setup", "no");
    note("%s; deferred %d; sequence %d, QoS %d", D[d], defer, seq, qos); std::map<std::string, std::string> end; Actor p, b; auto send = [&](size_t i) { auto &x = SEQ[seq][i]; P.pub(x.substr(0, 1), x.substr(2), qos, true, {}, 100 + i); }; for (auto &x : SEQ[seq]) end[x.substr(0, 1)] = x.substr(2);
    if (paced && qos) for (size_t i = 0; i < SEQ[seq].size(); i++) p.then([&, i] { return seen(P, PUBACK) >= i; }, [&, i] { send(i); }); else p.now([&] { for (size_t i = 0; i < SEQ[seq].size(); i++) send(i); });
    b.now([&] { switch (d) { case 1: B.sub({{"#", 1}}); break; case 2: B.pub("x", "y", 0, true); break; case 3: B.pub("t/c", "y", 0, true); break; case 4: for (int i = 0; i < 4; i++) B.pub("x" + std::to_string(i), "y", 0, true); break; case 5: B.sub({{"t", 1}}); break; case 6: B.pub("x", "", 0, true); break; } });
    sim::sched().held = defer; bool ok = run_actors(budget, {&p, &b}); sim::sched().held = false; std::string sch = sim::schedule_trace(); REQUIRE(ok, "answer", "not answered; schedule %s", sch.c_str()); if (defer) advance(1200); Cl C("C", 4); REQUIRE(C.connect(), "answer", "new client"); REQUIRE(C.subscribe({{"t", 1}, {"u", 1}}), "answer", "SUBACK"); std::map<std::string, std::string> got; for (auto &m : C.publishes()) if (m.retain) got[m.topic] = m.payload;
    for (auto &x : end) REQUIRE(got[x.first] == x.second, "retained", "after %s was set last, a new subscriber gets %s; schedule %s", x.second.c_str(), got[x.first].c_str(), sch.c_str()); count("retained sequences"); state(D[d] + std::to_string(seq));
}
// ---- every sequence of publishing, going, coming back and acknowledging in any order ----
static void offline()
{
    int q = 1 + choose(2, "QoS"), kind = choose(2, "version"); Server s; REQUIRE(s.start("expire_sessions_after_seconds 100000\n"), "boot", "no"); Cl P("P", 4), S("S"); S.o.ver = kind ? 5 : 4; S.o.clean = false; S.o.keepalive = kind ? 60000 : 0; if (kind) S.o.props = {pn(P_SESSEXP, 1000)}; REQUIRE(P.connect(), "setup", "no"); REQUIRE(S.connect(), "setup", "no"); REQUIRE(S.subscribe({{"t", q}}), "setup", "no");
    std::vector<std::vector<Pkt>> conns(1); std::vector<Pkt> unacked, rels; std::vector<int> expect, fresh; std::set<int> accepted; int k = 1; bool on = true; int depth = param("depth", thorough() ? 8 : 6);
    auto take = [&] { for (auto &m : S.all()) { if (m.type == PUBLISH) { conns.back().push_back(m); unacked.push_back(m); } if (m.type == PUBREL) rels.push_back(m); } };
    static const char *OP[] = {"publish", "publish two", "goes", "comes back", "is taken over", "acknowledges the oldest", "acknowledges the newest", "completes the oldest", "time passes"};
    for (int i = 0; i < depth; i++) { int o = choose(9, "op"); if (on == (o == 3)) prune(); if (!on && (o >= 4 && o <= 7)) prune(); if ((o == 5 && unacked.empty()) || (o == 6 && unacked.size() < 2) || (o == 7 && rels.empty())) prune(); if (o == 8 && i + 1 == depth) prune(); note("%s", OP[o]);
        switch (o) { case 0: REQUIRE(P.publish("t", "p" + std::to_string(k++), q), "answer", "P"); break; case 1: P.pub("t", "p" + std::to_string(k++), 1, false, {}, 200); if (q == 1) P.pub("t", "p" + std::to_string(k++), 1, false, {}, 201); settle(); P.all(); break; case 2: S.close(); settle(); on = false; break;
            case 3: case 4: unacked.clear(); rels.clear(); conns.emplace_back(); S.rx.clear(); S.rbuf.clear(); S.closed_seen = false; REQUIRE(S.connect(), "answer", "S"); REQUIRE(S.connack.sp, "session", "not present"); on = true; break;
            case 5: case 6: { Pkt m = o == 5 ? unacked.front() : unacked.back(); if (o == 5) unacked.erase(unacked.begin()); else unacked.pop_back(); S.raw(ack(S.o.ver, m.qos == 1 ? PUBACK : PUBREC, m.id)); accepted.insert(number(m.payload, 'p')); settle(); break; }
            case 7: S.raw(ack(S.o.ver, PUBCOMP, rels.front().id)); rels.erase(rels.begin()); settle(); break; case 8: advance(15000); break; }
        if (on) take(); for (auto &c : conns) { int last = 0; for (auto &m : c) { int n = number(m.payload, 'p'); if (m.qos == q) { REQUIRE(n != last, "twice", "on one connection: %s", list(c).c_str()); REQUIRE(n > last, "order", "on one connection: %s", list(c).c_str()); last = n; } } }
        if (on) for (auto &m : conns.back()) if (conns.size() > 1 && accepted.count(number(m.payload, 'p'))) { bool before = false; for (size_t c = 0; c + 1 < conns.size(); c++) for (auto &x : conns[c]) before |= x.payload == m.payload; (void)before; }
        if (on) { std::set<int> all; for (auto &c : conns) for (auto &m : c) all.insert(number(m.payload, 'p')); for (int n = 1; n < k; n++) REQUIRE(all.count(n), "lost", "p%d is missing on the connection", n); } }
    in_order(conns, 'p', "t", q, ""); count("histories"); state(std::to_string(k) + std::to_string(conns.size()) + std::to_string(unacked.size()));
}
// ---- what one thread does for the subscriber, interrupted twice anywhere by the publisher's thread ----
static void interrupted()
{
    static const char *WORK[] = {"comes back", "comes back with messages waiting", "is taken over", "subscribes again", "acknowledges all", "comes back with many waiting and receive maximum 2"}; int work = choose(6, "work"), q = choose(3, "QoS"), ver = 4 + choose(2, "version"); if (!q && work != 3 && work != 2) prune(); if (work == 5 && ver == 4) prune();
    int nint = thorough() ? 3 : 2;  Server s; REQUIRE(s.start("expire_sessions_after_seconds 100000\n"), "boot", "no"); Cl F("filler", 4), S("S"), S2("S"), P("P", 4), G("G", 4); auto setup = [&](Cl &c) { c.o.id = "S"; c.o.ver = ver; c.o.clean = false; c.o.keepalive = ver == 5 ? 60000 : 0; c.o.props.clear(); if (ver == 5) { c.o.props.push_back(pn(P_SESSEXP, 1000)); if (work == 5) c.o.props.push_back(pn(P_RECVMAX, 2)); } }; setup(S); setup(S2);
    REQUIRE(S.connect(), "setup", "no"); REQUIRE(S.subscribe({{"t", q}}), "setup", "no"); REQUIRE(P.connect(), "setup", "no"); if (work == 2 && choose(2, "threads")) REQUIRE(F.connect(), "setup", "no"); /* otherwise the new connection is in the other thread than P */ Rcv r(S), r2(S2); int k = 1; r.acking = work != 4; auto p1 = [&] { REQUIRE(P.publish("t", "p" + std::to_string(k++), q), "setup", "no"); for (int i = 0; i < 3; i++) { r.react(); settle(); } };
    if (work == 0 || work == 1 || work == 5) { S.disconnect(); settle(); r.collect(); } if (work == 1) p1(); if (work == 5) { p1(); p1(); } if (work == 4) { p1(); p1(); } std::vector<Interruption> in; std::vector<uint64_t> from; 
    for (int i = 0; i < nint; i++) in.push_back({[&, i] { P.pub("t", "p" + std::to_string(k++), q, false, {}, q ? 100 + i : 0); }, [&, i] { if (!q) return false; P.pump(); for (auto &x : P.rx) if (x.type == (q == 1 ? PUBACK : PUBREC) && x.id == 100u + i) return true; return false; }}); if (!q) for (auto &x : in) { auto act = x.act; x.act = [&, act] { act(); P.raw(pingreq()); from.push_back(seen(P, PINGRESP)); }; x.done = [&] { return seen(P, PINGRESP) > from.back(); }; }
    auto start = [&] { switch (work) { case 3: S.sub({{"t", q}, {"u", 1}}); break; case 4: for (auto &m : r.got) if (m.qos) S.raw(ack(ver, m.qos == 1 ? PUBACK : PUBREC, m.id)); break; default: S2.send_connect(); } }; size_t pat = 0; auto always = [&] { P.pump(); for (; pat < P.rx.size(); pat++) if (P.rx[pat].type == PUBREC) P.raw(ack(4, PUBREL, P.rx[pat].id)); if (work != 4) r.react(); r2.react(); };
    auto at = run_interrupted(start, in, work == 4 ? std::function<void()>() : always); r.acking = true; for (int i = 0; i < 6; i++) { always(); settle(); } std::string at_s = WORK[work]; for (auto a : at) at_s += " " + std::to_string(a); note("%s; QoS %d", at_s.c_str(), q); P.rx.clear(); pat = 0; p1(); always(); settle(); always();
    std::vector<std::vector<Pkt>> v{r.got, r2.got}; in_order(v, 'p', "t", q, at_s); std::set<int> have; for (auto &x : v) for (auto &m : x) have.insert(number(m.payload, 'p')); if (work != 5 && !(work == 2 && !q)) for (int i = 1; i < k; i++) REQUIRE(have.count(i), "lost", "p%d wasn't delivered: first %s, then %s; interrupted at %s", i, list(r.got).c_str(), list(r2.got).c_str(), at_s.c_str()); count("interrupted deliveries"); state(at_s);
}
CHECK(P18, "") { switch (choose(4, "part")) { case 3: interrupted(); break; case 0: live(); break; case 1: retaining(); break; default: offline(); } }
