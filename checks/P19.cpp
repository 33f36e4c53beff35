// P19 No deadlock or crash under any schedule.
#include "conc.h"
#include <set>
#include <csignal>
using namespace mc;
using namespace mq;
static const char *ACT[] = {"nothing", "A publishes QoS 1", "B publishes QoS 2", "A subscribes to #", "B unsubscribes", "a new client connects and subscribes", "X is taken over", "X closes", "X disconnects with an expiry", "O comes back", "A sets a retained message", "B deletes a retained message", "reload", "timers", "tree upkeep", "A breaks the protocol", "log files reopened", "B subscribes to $SYS and a shared subscription", "A publishes QoS 0 with many receivers", "O is replaced with clean start", "V's client id is connected twice", "memory trimmed", "a new client is refused", "B publishes to the slow one"};
static const int N = sizeof ACT / sizeof *ACT;
CHECK(P19, "")
{
    int budget = param("budget", thorough() ? 2 : 1); bool upkeep = choose(2, "time of upkeep"); Server s; const uint64_t PURGE_MS = 1846849;
    sim::fs::mkdir("/mcfs"); sim::fs::put("/mcfs/pw", "bob:x\n"); sim::fs::put("/mcfs/acl", "topic readwrite #\ntopic readwrite $SYS/#\ntopic readwrite $share/#\n");
    const std::string conf = std::string("storage_dir /mcfs/store\nsave_state_interval 300\nsubscription_node_lifetime 0\nmosquitto_password_file /mcfs/pw\nmosquitto_acl_file /mcfs/acl\nlog_file /mcfs/log\n") + (choose(2, "deferred retained messages") ? "set_retained_message_defer_timeout 1000\n" : "");
    REQUIRE(s.start(conf), "boot", "no"); uint64_t t0 = sim::now_ns() / 1000000 - 200; std::map<std::string, std::unique_ptr<Cl>> cl; auto add = [&](const std::string &id, int ver, uint32_t expiry, int keepalive = 0) -> Cl & { auto c = std::make_unique<Cl>(id, ver); c->o.clean = ver == 5 ? false : !expiry; if (ver == 5) { if (expiry) c->o.props.push_back(pn(P_SESSEXP, expiry)); c->o.keepalive = keepalive ? keepalive : 60000; } else c->o.keepalive = keepalive; Will w; w.topic = "w/" + id; w.payload = "w"; w.qos = 1; if (ver == 5 && expiry) w.props.push_back(pn(P_WILLDELAY, 3)); c->o.will = w; REQUIRE(c->connect(), "setup", "%s", id.c_str()); cl[id] = std::move(c); return *cl[id]; };
    if (upkeep) advance(t0 + PURGE_MS - 3000 - sim::now_ns() / 1000000); else advance(t0 + 296000 - sim::now_ns() / 1000000);
    Cl &A = add("A", 4, 0), &B = add("B", 5, 1000), &V = add("V", 5, 1000), &X = add("X", 4, 1), &O = add("O", 5, 1000), &E = add("E", 5, 1); Cl &W = add("slow", 4, 1); (void)V;
    REQUIRE(A.subscribe({{"a/#", 1}, {"$share/g/a/b", 1}}), "setup", "no"); REQUIRE(B.subscribe({{"a/+", 2}, {"$share/g/a/b", 1}}), "setup", "no"); REQUIRE(X.subscribe({{"a/b", 1}, {"w/#", 1}}), "setup", "no"); REQUIRE(O.subscribe({{"a/b", 1}, {"r/#", 0}}), "setup", "no"); REQUIRE(E.subscribe({{"a/b", 1}}), "setup", "no"); REQUIRE(W.subscribe({{"s", 0}, {"a/b", 0}}), "setup", "no"); REQUIRE(A.subscribe({{"gone/x", 1}}), "setup", "no"); REQUIRE(A.unsubscribe({"gone/x"}), "setup", "no");
    for (auto t : {"r/1", "r/2", "a/b"}) REQUIRE(A.publish(t, "old", 1, true), "setup", "no"); REQUIRE(B.publish("r/3", "short", 1, true, {pn(2, 1)}), "setup", "no"); O.close(); E.close(); settle(); REQUIRE(A.publish("a/b", "kept", 1), "setup", "no"); for (auto c : {&A, &B, &X, &W}) c->publishes(); W.c->out_space = 200;
    advance(t0 + (upkeep ? PURGE_MS : 300000) - 20 - sim::now_ns() / 1000000);
    int a1 = choose(N, "activity 1"), a2 = choose(N, "activity 2"), a3 = thorough() ? choose(N, "activity 3") : 0; if (a1 >= a2 && a1 + a2) prune(); if (a3 && a3 >= a1) prune(); std::set<int> as{a1, a2, a3}; bool timers = as.count(13), tree = as.count(14); if (timers == tree && timers) prune(); if (upkeep != tree) prune(); if (!thorough() && (as.count(16) || as.count(21)) && !as.count(12) && !as.count(13)) prune();
    if (as.count(6) && (as.count(7) || as.count(8))) prune(); if (as.count(9) && as.count(19)) prune(); if (as.count(7) && as.count(8)) prune(); if (as.count(15) && (as.count(1) || as.count(3) || as.count(10) || as.count(18))) prune(); if (timers + tree == 0 && upkeep) prune();
    note("%s, %s, %s", ACT[a1], ACT[a2], ACT[a3]); Cl X2("X", 5), O2("O", 5), O3("O", 5), N1("new", 5), V1("V", 5), V2("V", 4), R("bad", 4); std::vector<std::unique_ptr<Actor>> ac; bool swap = choose(2, "threads"); Cl F("filler", 4); if (swap) { if (!as.count(5) && !as.count(6) && !as.count(9) && !as.count(19) && !as.count(20) && !as.count(22)) prune(); REQUIRE(F.connect(), "setup", "no"); }
    for (int k : as) { ac.push_back(std::make_unique<Actor>()); Actor &a = *ac.back(); switch (k) {
        case 1: a.now([&] { A.pub("a/b", "m1", 1, false, {}, 101); A.pub("a/b", "m2", 1, false, {}, 102); }).then([&] { return seen(A, PUBACK) >= 2; }, [] {}); break;
        case 2: a.now([&] { B.pub("a/b", "m3", 2, false, {}, 103); }).then([&] { return has(B, PUBREC); }, [&] { B.raw(ack(5, PUBREL, 103)); }).then([&] { return has(B, PUBCOMP); }, [] {}); break;
        case 3: a.now([&] { A.sub({{"#", 1}}); }).then([&] { return has(A, SUBACK); }, [] {}); break;
        case 4: a.now([&] { B.raw(mq::unsubscribe(5, 104, {"a/+", "$share/g/a/b"})); }).then([&] { return has(B, UNSUBACK); }, [] {}); break;
        case 5: a.now([&] { N1.send_connect(); }).then([&] { return has(N1, CONNACK) || (as.count(12) && N1.closed()); }, [&] { if (!N1.closed()) N1.sub({{"a/b", 1}, {"r/#", 1}}); }).then([&] { return has(N1, SUBACK) || (as.count(12) && N1.closed()); }, [&] { if (!N1.closed()) N1.raw(mq::disconnect(5)); N1.close(); }); break;
        case 6: a.now([&] { X2.o.clean = false; X2.o.props = {pn(P_SESSEXP, 1000)}; X2.send_connect(); }).then([&] { return has(X2, CONNACK) || (as.count(12) && X2.closed()); }, [] {}); break;
        case 7: a.now([&] { X.close(); }); break;
        case 8: a.now([&] { X.raw(mq::disconnect(4)); X.close(); }); break;
        case 9: a.now([&] { O2.o.clean = false; O2.o.props = {pn(P_SESSEXP, 1000)}; O2.send_connect(); }).then([&] { return has(O2, CONNACK) || (as.count(12) && O2.closed()); }, [] {}); break;
        case 10: a.now([&] { A.pub("r/2", "new", 1, true, {}, 105); A.pub("r/4", "new", 1, true, {}, 106); }).then([&] { return has(A, PUBACK); }, [] {}); break;
        case 11: a.now([&] { B.pub("r/2", "", 1, true, {}, 107); B.pub("r/1", "", 1, true, {}, 108); }).then([&] { return has(B, PUBACK); }, [] {}); break;
        case 12: a.now([&] { s.write_conf(conf + "max_packet_size 100000\n"); sim::fs::put("/mcfs/pw", "bob:y\n"); sim::deliver_signal(SIGHUP); }); break;
        case 13: case 14: a.now([&] { sim::pass(40); }); break;
        case 15: a.now([&] { A.raw(std::string("\x00\x00", 2)); }).then([&] { return A.closed(); }, [] {}); break;
        case 16: a.now([&] { sim::deliver_signal(SIGUSR1); }); break;
        case 17: a.now([&] { B.sub({{"$SYS/#", 0}, {"$share/h/a/b", 1}}); }).then([&] { return has(B, SUBACK); }, [] {}); break;
        case 18: a.now([&] { for (int i = 0; i < 3; i++) A.pub("a/b", "q0", 0); A.raw(pingreq()); }).then([&] { return has(A, PINGRESP); }, [] {}); break;
        case 19: a.now([&] { O3.o.clean = true; O3.send_connect(); }).then([&] { return has(O3, CONNACK) || (as.count(12) && O3.closed()); }, [] {}); break;
        case 20: a.now([&] { V1.o.clean = false; V1.o.props = {pn(P_SESSEXP, 1000)}; V1.send_connect(); V2.o.clean = false; V2.send_connect(); }).then([&] { V1.pump(); V2.pump(); return (has(V1, CONNACK) || V1.closed()) && (has(V2, CONNACK) || V2.closed()); }, [] {}); break;
        case 21: a.now([&] { sim::deliver_signal(SIGUSR2); }); break;
        case 22: a.now([&] { R.o.user = "bob"; R.o.pass = "wrong"; R.send_connect(); }).then([&] { return has(R, CONNACK) || (as.count(12) && R.closed()); }, [] {}); break;
        case 23: a.now([&] { for (int i = 0; i < 3; i++) B.pub("s", std::string(150, 's'), 0); B.raw(pingreq()); }).then([&] { return has(B, PINGRESP); }, [] {}); break; } }
    std::vector<Actor*> ap; for (auto &a : ac) ap.push_back(a.get()); bool ok = run_actors(budget, ap); std::string sch = sim::schedule_trace(); REQUIRE(ok, "answer", "a request wasn't answered; schedule %s", sch.c_str());
    advance(6000); W.c->out_space = SIZE_MAX; settle(); REQUIRE(s.running(), "ended", "the server ended; schedule %s", sch.c_str()); for (auto &c : cl) if (c.second->c && !c.second->closed()) { c.second->publishes(); REQUIRE(c.second->decode_error.empty(), "garbage", "%s: %s; schedule %s", c.first.c_str(), c.second->decode_error.c_str(), sch.c_str()); c.second->rx.clear(); if (!c.second->closed()) REQUIRE(c.second->ping(), "answer", "%s gets no answer to a PINGREQ; schedule %s", c.first.c_str(), sch.c_str()); }
    if (!as.count(15)) REQUIRE(!A.closed(), "closed", "A was disconnected; schedule %s", sch.c_str()); REQUIRE(!B.closed() && (as.count(20) || !V.closed()), "closed", "B or V was disconnected; schedule %s", sch.c_str());
    Cl Z("Z", 4); REQUIRE(Z.connect(), "answer", "a new client isn't accepted; schedule %s", sch.c_str()); REQUIRE(Z.subscribe({{"z", 1}, {"r/#", 1}}), "answer", "SUBACK"); Z.publishes(); REQUIRE(B.publish("z", "hello", 1), "answer", "PUBACK; schedule %s", sch.c_str()); auto v = Z.publishes(); REQUIRE(v.size() == 1 && v[0].payload == "hello", "lost", "a message for a new client isn't delivered (%zu); schedule %s", v.size(), sch.c_str());
    if (!sim::sched().deviations || thorough()) { REQUIRE(s.stop(), "stop", "no proper end, status %d; schedule %s", s.exit_code, sch.c_str()); count("proper ends"); }
    count("pairs of activities"); state(std::string(ACT[a1]) + ACT[a2] + ACT[a3]);
}
