// P16 Concurrent subscribing, unsubscribing and publishing lose nothing.
#include "conc.h"
#include "model.h"
using namespace mc;
using namespace mq;
static const char *CONF = "subscription_node_lifetime 0\nexpire_sessions_after_seconds 100000\n";
static const uint64_t PURGE_MS = 1846849, RETAIN_MS = 3949193;
static uint64_t t0;
struct World {
    Server s; std::map<std::string, std::unique_ptr<Cl>> cl; std::map<std::string, std::set<std::string>> subs; int n = 0;
    // clients are put on the worker threads in turn
    Cl &add(const std::string &id, bool persist = false) { auto c = std::make_unique<Cl>(id, 4); c->o.clean = !persist; REQUIRE(c->connect(), "setup", "no"); n++; cl[id] = std::move(c); return *cl[id]; }
    void sub(const std::string &id, const std::string &f) { REQUIRE(cl[id]->subscribe({{f, 1}}), "setup", "no"); subs[id].insert(f); }
    void unsub(const std::string &id, const std::string &f) { REQUIRE(cl[id]->unsubscribe({f}), "setup", "no"); subs[id].erase(f); }
};
static size_t n_of(const std::vector<Pkt> &v, const std::string &pl) { size_t n = 0; for (auto &p : v) n += p.payload == pl; return n; }
// every client present gets exactly what its subscriptions say
static void probe(World &w)
{
    static const char *T[] = {"a/b", "a/c", "x/b", "a/b/c"}; Cl P("prober", 4); REQUIRE(P.connect(), "answer", "new client"); for (auto &c : w.cl) if (c.second->c && !c.second->closed()) c.second->publishes(); int i = 0;
    for (auto t : T) for (int k = 0; k < 2; k++) { std::string pl = "probe" + std::to_string(i++); REQUIRE(P.publish(t, pl, 1), "answer", "no PUBACK"); std::map<std::string, int> share; for (auto &c : w.cl) {
        if (!c.second->c || c.second->closed()) continue; size_t want = 0; for (auto &f : w.subs[c.first]) { if (f[0] == '$') { if (model::matches(f.substr(9), t)) share[f] += 0; } else want += model::matches(f, t); }
        size_t g = n_of(c.second->publishes(), pl); bool shared = false; for (auto &f : w.subs[c.first]) if (f[0] == '$' && model::matches(f.substr(9), t)) { share[f] += g - want; shared = true; } if (!shared) REQUIRE(g == want, g < want ? "lost" : "extra", "%s got a later message on %s %zu times instead of %zu; schedule %s", c.first.c_str(), t, g, want, sim::schedule_trace().c_str()); }
        for (auto &x : share) REQUIRE(x.second == 1, x.second < 1 ? "lost" : "extra", "group %s got a later message on %s %d times; schedule %s", x.first.c_str(), t, x.second, sim::schedule_trace().c_str()); }
}
static const char *DIST[] = {"nothing", "subscribes to the same", "subscribes to a sibling", "subscribes below", "unsubscribes the same", "unsubscribes a sibling", "ends with the same", "publishes there", "is taken over", "joins the group", "leaves the group"};
// ---- a subscription whose SUBACK arrived is in force; one whose UNSUBACK arrived isn't ----
static void subscribing(bool un)
{
    int budget = param("budget", thorough() ? 3 : 1); static const char *F[] = {"a/b", "a/+", "a/#", "$share/g/a/b", "#", "+/b"}; int tidy = choose(3, "tidying up"); bool swap = thorough() && choose(2, "threads");
    World w; REQUIRE(w.s.start(CONF), "boot", "no"); t0 = sim::now_ns() / 1000000 - 200; if (tidy) { advance(t0 + PURGE_MS - 500 - sim::now_ns() / 1000000); sim::rand_hook = [=] { return tidy - 1; }; }
    std::string f = F[choose(thorough() ? 6 : 4, "filter")]; int d1 = choose(11, "disturber 1"), d2 = thorough() ? choose(11, "disturber 2") : 0; if (d2 > d1) prune(); bool left = choose(2, "node left from before"); if (!left && tidy && d1 != 4 && d1 != 6) prune();
    if (swap) w.add("x"); Cl &A = w.add("A"), &B = w.add("B"), &D = w.add("D"), &C = w.add("C"); (void)D; // A and D on one thread, B and C on the other
    if (left) { w.sub("A", f); w.unsub("A", f); } std::string same = f[0] == '$' ? "a/b" : f; auto prep = [&](const std::string &id, int d) { if (d == 4 || d == 6 || d == 8) w.sub(id, same); if (d == 5) w.sub(id, "a/c"); if (d == 10) w.sub(id, "$share/g/a/b"); };
    if (un) w.sub("A", f); prep("B", d1); if (d2) prep("D", d2); note("%s %s; B %s, D %s, tidying %d", un ? "unsubscribe" : "subscribe", f.c_str(), DIST[d1], DIST[d2], tidy);
    if (tidy) advance(t0 + PURGE_MS - 20 - sim::now_ns() / 1000000);
    Actor a, b, d, c; a.now([&] { if (un) A.raw(mq::unsubscribe(4, 50, {f})); else A.sub({{f, 1}}); });
    Cl B2("B", 4); auto disturb = [&](Actor &x, Cl &cl, int k) { std::string id = cl.name; x.now([&w, &cl, &B2, k, same, id] { switch (k) { case 1: cl.sub({{same, 1}}); w.subs[id].insert(same); break; case 2: cl.sub({{"a/c", 1}}); w.subs[id].insert("a/c"); break; case 3: cl.sub({{"a/b/c", 1}}); w.subs[id].insert("a/b/c"); break; case 4: cl.raw(mq::unsubscribe(4, 60, {same})); w.subs[id].erase(same); break; case 5: cl.raw(mq::unsubscribe(4, 60, {"a/c"})); w.subs[id].erase("a/c"); break; case 6: cl.raw(mq::disconnect(4)); break; case 7: cl.pub("a/b", "dist", 1); break; case 8: if (id == "B") B2.send_connect(); w.subs[id].clear(); break; case 9: cl.sub({{"$share/g/a/b", 1}}); w.subs[id].insert("$share/g/a/b"); break; case 10: cl.raw(mq::unsubscribe(4, 60, {"$share/g/a/b"})); w.subs[id].erase("$share/g/a/b"); break; } }); };
    disturb(b, B, d1); if (d2) disturb(d, D, d2); c.then([&] { return has(A, un ? UNSUBACK : SUBACK); }, [&] { C.pub("a/b", "later", 1); }).then([&] { return has(C, PUBACK); }, [] {});
    bool ok = run_actors(budget, {&a, &b, &d, &c}, [&] { if (tidy) sim::pass(40); }); REQUIRE(ok, "answer", "a request wasn't answered; schedule %s", sim::schedule_trace().c_str()); sim::rand_hook = nullptr; if (un) w.subs["A"].erase(f); else w.subs["A"].insert(f);
    if (f[0] != '$' || un) { size_t g = n_of(A.publishes(), "later"); REQUIRE(g == !un, un ? "extra" : "lost", "published after the %s: delivered %zu times; schedule %s", un ? "UNSUBACK" : "SUBACK", g, sim::schedule_trace().c_str()); }
    if (d1 == 8) { w.cl["B"] = nullptr; w.cl.erase("B"); } probe(w); count(un ? "unsubscribes" : "subscribes"); state(DIST[d1] + f + std::to_string(tidy) + std::to_string(un));
}
// ---- a retained message that was acknowledged is there for whoever subscribes later ----
static void retaining()
{
    int budget = param("budget", thorough() ? 3 : 1); static const char *D[] = {"nothing", "sets the same", "removes the same", "sets a sibling", "sets a child", "sets the parent", "removes a sibling", "sets a too large one", "subscribes"};
    int tidy = choose(thorough() ? 3 : 2, "tidying up: none, messages, messages that never get enough time"), defer = choose(2, "deferred setting"); bool swap = thorough() && choose(2, "threads"); if (!thorough() && defer && tidy) prune();
    std::string big(300, 'L'); World w; REQUIRE(w.s.start(std::string(CONF) + "retained_message_node_lifetime 0\nretained_message_max_payload_size 200\n" + (defer ? "set_retained_message_defer_timeout 1000\n" : "")), "boot", "no"); t0 = sim::now_ns() / 1000000 - 200; if (tidy) advance(t0 + RETAIN_MS - 500 - sim::now_ns() / 1000000);
    int d = choose(9, "disturber"), before = choose(4, "before: no node, empty node, a message, an expiring message"), what = choose(3, "set, remove or too large"); if (before == 3 && !tidy) prune(); if (what == 1 && before < 2) prune(); if (what == 2 && (d != 7 || tidy || before > 1) && !thorough()) prune();
    if (swap) w.add("x"); Cl &A = w.add("A"), &B = w.add("B"); w.add("D"); Cl &C = w.add("C");
    std::optional<std::string> cur; std::map<std::string, std::set<std::string>> may; // possible values at the end, "" for none
    if (before && before < 3) { REQUIRE(A.publish("a/b", "old", 1, true), "setup", "no"); cur = "old"; } if (before == 1) { REQUIRE(A.publish("a/b", "", 1, true), "setup", "no"); cur = {}; } if (d == 6) REQUIRE(B.publish("a/c", "sib", 1, true), "setup", "no");
    if (tidy) advance(t0 + RETAIN_MS - 20 - sim::now_ns() / 1000000); if (before == 3) { Cl V("V", 5); REQUIRE(V.connect(), "setup", "no"); V.raw(mq::publish(5, "a/b", "old", 1, 9, true, false, {pn(2, 1)})); settle(); cur = ""; }
    std::string mine = what == 0 ? "mine" : what == 1 ? "" : big; auto set = [&](Cl &c, const std::string &t, const std::string &v) { c.raw(mq::publish(4, t, v, 1, 70, true)); };
    note("A sets %s; B %s; before %d, tidying %d, deferred %d", mine.c_str(), D[d], before, tidy, defer); Actor a, b, c; a.now([&] { set(A, "a/b", mine); }); b.now([&] { switch (d) { case 1: set(B, "a/b", "his"); break; case 2: set(B, "a/b", ""); break; case 3: set(B, "a/c", "his"); break; case 4: set(B, "a/b/c", "his"); break; case 5: set(B, "a", "his"); break; case 6: set(B, "a/c", ""); break; case 7: set(B, "b", big); break; case 8: B.sub({{"a/#", 1}}); break; } });
    std::string kept = what == 2 ? cur.value_or("") : mine; std::set<std::string> end{kept}; if (d == 1) end = what == 2 ? std::set<std::string>{"his"} : std::set<std::string>{mine, "his"}; if (d == 2) end.insert(""), what == 2 ? void(end = {""}) : void(); std::set<std::string> now = end; if (d == 1 || d == 2) now.insert(kept);
    c.then([&] { return has(A, PUBACK); }, [&] { C.sub({{"a/b", 1}}); }).then([&] { return has(C, SUBACK); }, [] {});
    bool ok = run_actors(budget, {&a, &b, &c}, [&] { if (tidy) sim::pass(40); if (tidy == 2) sim::clock_step_ns = 3000000; }); sim::clock_step_ns = 50; REQUIRE(ok, "answer", "a request wasn't answered; schedule %s", sim::schedule_trace().c_str());
    std::string got; for (auto &p : C.publishes()) if (p.retain) { REQUIRE(p.topic == "a/b", "topic", "%s", p.topic.c_str()); got = p.payload; }
    if (!defer) REQUIRE(now.count(got), "retained", "after the PUBACK a new subscriber found '%s'; schedule %s", got.c_str(), sim::schedule_trace().c_str());
    advance(1200); Cl Z("Z", 4); REQUIRE(Z.connect(), "answer", "new client"); REQUIRE(Z.subscribe({{"#", 1}}), "answer", "SUBSCRIBE"); settle(); std::map<std::string, std::string> f; for (auto &p : Z.publishes()) f[p.topic] = p.payload;
    REQUIRE(end.count(f["a/b"]), "retained", "at the end a new subscriber finds '%s' at a/b; schedule %s", f["a/b"].c_str(), sim::schedule_trace().c_str());
    auto other = [&](const char *t, const std::string &v) { REQUIRE(f[t] == v, "retained", "at the end a new subscriber finds '%s' instead of '%s' at %s; schedule %s", f[t].c_str(), v.c_str(), t, sim::schedule_trace().c_str()); }; other("a/c", d == 3 ? "his" : ""); other("a/b/c", d == 4 ? "his" : ""); other("a", d == 5 ? "his" : ""); other("b", "");
    if (d == 8) { size_t n = 0; for (auto &p : B.publishes()) n += p.payload == mine; REQUIRE(n <= 2, "extra", "%zu", n); }
    count("retained messages"); state(std::string(D[d]) + std::to_string(before) + std::to_string(tidy));
}
CHECK(P16, "")
{
    switch (choose(3, "part")) { case 0: subscribing(false); break; case 1: subscribing(true); break; case 2: retaining(); break; }
}
