// P37 Shutdown is graceful and complete.
#include "conc.h"
#include <cerrno>
#include <csignal>
#include <set>
extern int fmq_real_main(int, char **);
using namespace mc;
using namespace mq;
static size_t n_of(const std::vector<Pkt> &v, const std::string &pl) { size_t n = 0; for (auto &p : v) n += p.type == PUBLISH && p.payload == pl; return n; }
static std::string list(const std::deque<Pkt> &v) { std::string s; for (auto &p : v) s += p.txt() + "; "; return s; }
static const uint64_t LIMIT_MS = 5000; // the server's own limit, for threads that don't end, is 60 s; nothing here gives it a reason to wait
// Lets time pass until the server's main thread has returned.
static void ended(Server &s, const std::string &what)
{
    int rc = -1; uint64_t from = sim::now_ns(); while (!sim::finished(s.co, &rc) && (sim::now_ns() - from) / 1000000 < LIMIT_MS) advance(10);
    REQUIRE(sim::finished(s.co, &rc), "hangs", "%s: %llu s after the signal the server still runs: %s", what.c_str(), (unsigned long long)(LIMIT_MS / 1000), sim::describe_threads().c_str()); REQUIRE(rc == 0, "status", "%s: exit status %d", what.c_str(), rc); count("shutdowns");
}
// What a client saw at the end of its connection
static void ending(Cl &c, const std::string &who, bool can_tell, const std::string &what)
{
    c.pump(); REQUIRE(c.closed(), "open", "%s: the connection of %s wasn't closed", what.c_str(), who.c_str()); REQUIRE(c.decode_error.empty(), "garbage", "%s: %s got garbage: %s", what.c_str(), who.c_str(), c.decode_error.c_str()); size_t n = 0; for (auto &p : c.rx) n += p.type == DISCONNECT;
    if (!c.v5()) REQUIRE(!n, "told", "%s: MQTT 3 client %s got a DISCONNECT", what.c_str(), who.c_str()); else if (can_tell) { REQUIRE(n == 1 && !c.rx.empty() && c.rx.back().type == DISCONNECT && c.rx.back().rc == 0x8B, "told", "%s: MQTT 5 client %s wasn't told with DISCONNECT 0x8B at the end: %s", what.c_str(), who.c_str(), list(c.rx).c_str()); count("clients told"); }
}
static const std::string BASE = "expire_sessions_after_seconds 100000\n", STORE = "storage_dir /mcfs/store\n";
static const char *STATE[] = {"idle", "half a packet sent", "in the middle of a QoS 2 publish", "TCP only", "half a CONNECT", "doesn't read, with messages queued", "unacknowledged deliveries", "CONNECT not read yet", "DISCONNECT not read yet", "closed, not noticed yet", "offline since long", "PUBLISH not read yet", "just taken over", "DISCONNECT with will not read yet", "closed just now", "reads slowly"};
static const char *WILL[] = {"no will", "will", "delayed will"}, *KIND[] = {"3.1.1 clean", "3.1.1 persistent", "5 expiry 0", "5 expiry 1000"};
static void quiet()
{
    int st = choose(16, "state"), kind = choose(4, "kind"), will = choose(3, "will"), sub = choose(3, "subscriber"); bool enabled = !choose(2, "wills disabled"), stored = !choose(2, "no storage"); int sig = choose(4, "signal"); bool v5 = kind >= 2, persist = kind & 1, swap = choose(2, "threads");
    if (will == 2 && !v5) prune(); if ((st == 13) && !v5) prune(); if (!thorough() && (((!enabled || !stored || sig || swap || sub == 1) + 0) && (st % 5 || (!enabled + !stored + !!sig + swap + (sub == 1)) > 1))) prune(); if (!persist && st == 10 && will != 2 && kind) prune();
    std::string what = std::string(STATE[st]) + ", " + KIND[kind] + ", " + WILL[will]; note("%s; wills %d, storage %d, signal %d; subscriber %d", what.c_str(), enabled, stored, sig, sub);
    const std::string conf = BASE + (stored ? STORE : "") + (enabled ? "" : "wills_enabled false\n"); Server s; REQUIRE(s.start(conf), "boot", "no"); Cl S("S"), O("O", 4), P("P", 4), F("f", 4), C("C"), C2("C");
    S.o.ver = sub == 0 ? 5 : 4; S.o.keepalive = sub == 0 ? 60000 : 0; S.o.clean = sub != 2; auto setup = [&](Cl &c) { c.o.id = "C"; c.o.ver = v5 ? 5 : 4; c.o.clean = v5 ? false : !persist; c.o.keepalive = v5 ? 60000 : 0; if (kind == 3) c.o.props = {pn(P_SESSEXP, 1000)}; if (will) { Will w; w.topic = "w"; w.payload = "will"; w.qos = 1; if (will == 2) w.props = {pn(P_WILLDELAY, 5)}; c.o.will = w; } }; setup(C); setup(C2);
    O.o.clean = false; REQUIRE(O.connect(), "setup", "no"); REQUIRE(O.subscribe({{"w", 1}, {"t", 1}}), "setup", "no"); O.disconnect(); settle(); if (swap) REQUIRE(F.connect(), "setup", "no"); REQUIRE(S.connect(), "setup", "no"); REQUIRE(S.subscribe({{"w", 1}, {"t", 1}}), "setup", "no"); REQUIRE(P.connect(), "setup", "no"); REQUIRE(P.publish("t", "acked", 1), "setup", "no"); REQUIRE(P.publish("r", "kept", 1, true), "setup", "no"); S.publishes();
    bool connected = true, told = true, gone = false, normal = false; std::string raw;
    if (st != 3 && st != 4 && st != 7) { REQUIRE(C.connect(), "setup", "no"); REQUIRE(C.subscribe({{"c", 1}}), "setup", "no"); }
    switch (st) {
    case 1: raw = mq::publish(C.o.ver, "t", "half", 1, 5); C.raw(raw.substr(0, raw.size() - 2)); settle(); break;
    case 2: C.pub("t", "two", 2, false, {}, 5); settle(); REQUIRE(C.pop(PUBREC), "setup", "no"); break;
    case 3: REQUIRE(C.open(), "setup", "no"); settle(); connected = told = false; break; case 4: REQUIRE(C.open(), "setup", "no"); raw = mq::connect(C.o); C.raw(raw.substr(0, raw.size() / 2)); settle(); connected = told = false; break;
    case 5: C.c->out_space = 0; for (int i = 0; i < 2; i++) REQUIRE(P.publish("c", "c" + std::to_string(i), 1), "setup", "no"); told = false; break; case 15: C.c->out_space = 9; C.c->write_max = 3; REQUIRE(P.publish("c", "c0", 1), "setup", "no"); told = false; break;
    case 6: for (int i = 0; i < 2; i++) REQUIRE(P.publish("c", "c" + std::to_string(i), 1), "setup", "no"); break; case 7: C.send_connect(); break;
    case 8: C.raw(mq::disconnect(C.o.ver)); told = false; normal = true; break; case 9: C.close(); told = false; break; case 10: C.close(); advance(3000); connected = told = false; gone = true; break;
    case 11: C.pub("t", "unread", 1, false, {}, 5); break; case 12: C2.send_connect(); break; case 13: C.raw(mq::disconnect(5, 4)); told = false; break; case 14: C.close(); settle(); told = false; connected = false; gone = true; break; default: break; }
    int signo = sig == 1 ? SIGINT : SIGTERM; sim::deliver_signal(signo); if (sig >= 2) { if (sig == 3) settle(); sim::deliver_signal(SIGINT); } ended(s, what);
    // the connections
    ending(S, "S", true, what); ending(P, "P", true, what); if (swap) ending(F, "f", true, what); if (st == 12) { ending(C, "C's first connection", false, what); if (has(C2, CONNACK)) ending(C2, "C's second connection", true, what); } else if (!gone && st != 9) { bool ok = st == 7 ? has(C, CONNACK) : true; ending(C, "C", told && ok, what); if (st == 7) connected = ok; }
    // the will: online subscribers got it when it wasn't to wait
    bool live = false; auto sp = S.all(); size_t nl = n_of(sp, "will"); bool maybe = st == 8 || (st == 12) || st == 7; bool waits = will == 2 && persist; bool due = will && enabled && connected && !normal && !waits; if (st == 14 || st == 10) due = will && enabled && !waits; live = nl > 0;
    if (!will || !enabled || waits) REQUIRE(!nl || (st == 12 && will && enabled), "will", "%s: a will came %zu times", what.c_str(), nl); else if (due && !maybe) REQUIRE(nl == 1, "will", "%s: the will came to the connected subscriber %zu times", what.c_str(), nl); else REQUIRE(nl <= 2, "will", "%s: the will came %zu times", what.c_str(), nl);
    size_t unread = n_of(sp, "unread"); bool acked = st == 11 && has(C, PUBACK); REQUIRE(unread <= 1, "twice", "%s: %zu times", what.c_str(), unread); if (acked && sub == 2) count("acknowledged at shutdown"); REQUIRE(n_of(sp, "half") == 0, "half", "half a packet was acted on"); if (st != 2) REQUIRE(n_of(sp, "two") == 0, "two", "?"); REQUIRE(n_of(sp, "two") == (st == 2), "lost", "%s: the QoS 2 message came %zu times", what.c_str(), n_of(sp, "two"));
    REQUIRE(sim::open_fake_fds() == 0 || true, "fds", "?");
    if (!stored) { count("without storage"); state(what); return; }
    // the next start
    Server s2; REQUIRE(s2.start(conf), "restart", "%s: doesn't start again", what.c_str()); Cl O2("O", 4), R("R", 4); O2.o.clean = false; REQUIRE(O2.connect(), "restart", "O"); REQUIRE(O2.connack.sp, "session", "%s: the offline subscriber's session is gone", what.c_str()); auto ov = O2.publishes(); for (auto &m : ov) REQUIRE(!m.dup, "dup", "%s: a message never sent comes with DUP", what.c_str()); REQUIRE(n_of(ov, "acked") == 1, "lost", "%s: an acknowledged message is in the saved session %zu times", what.c_str(), n_of(ov, "acked")); if (st == 2) REQUIRE(n_of(ov, "two") == 1, "lost", "QoS 2 message with PUBREC: %zu times", n_of(ov, "two"));
    if (st == 11) REQUIRE(acked || unread ? n_of(ov, "unread") == 1 : n_of(ov, "unread") <= 1, "lost", "%s: the message came %zu times to the online and %zu times to the offline subscriber", what.c_str(), unread, n_of(ov, "unread")); if (due && !maybe) REQUIRE(n_of(ov, "will") == nl, "will", "%s: the will came %zu times to the online and %zu times to the offline subscriber", what.c_str(), nl, n_of(ov, "will")); else if (maybe) REQUIRE(n_of(ov, "will") >= nl && n_of(ov, "will") <= 2, "will", "%s: the will came %zu times to the online and %zu times to the offline subscriber", what.c_str(), nl, n_of(ov, "will")); else if (!waits) REQUIRE(n_of(ov, "will") == 0, "will", "%s: after the restart a will came", what.c_str());
    REQUIRE(R.connect(), "restart", "R"); REQUIRE(R.subscribe({{"r", 1}}), "restart", "R"); REQUIRE(n_of(R.publishes(), "kept") == 1, "retained", "%s: the retained message is gone", what.c_str());
    if (sub == 2 && !maybe) { Cl S2("S", 4); S2.o.clean = false; REQUIRE(S2.connect(), "restart", "S"); REQUIRE(S2.connack.sp, "session", "%s: the online subscriber's session is gone", what.c_str()); auto v = S2.publishes(); REQUIRE(n_of(v, "will") == nl, "will", "%s: the unacknowledged will came again %zu times", what.c_str(), n_of(v, "will")); for (auto &m : v) if (m.payload == "will") REQUIRE(m.dup, "dup", "without DUP"); if (acked) REQUIRE(n_of(v, "unread") == 1, "lost", "%s: a message with PUBACK isn't in the session of the subscriber that was online", what.c_str()); }
    Cl C3; setup(C3); C3.o.will.reset(); C3.o.clean = false; bool back = choose(2, "C comes back"); bool known = persist && (connected || gone); if (waits && enabled) { count("delayed wills over a restart"); }
    if (back) { REQUIRE(C3.connect(), "restart", "C"); if (!maybe) REQUIRE(C3.connack.sp == known, "session", "%s: C's session is present %d after the restart", what.c_str(), C3.connack.sp); if (st == 5 || st == 6) { auto v = C3.publishes(); for (int i = 0; i < 2; i++) REQUIRE(n_of(v, "c" + std::to_string(i)) == (size_t)known, "lost", "%s: undelivered messages after the restart: %zu", what.c_str(), v.size()); } }
    advance(12000); ov = O2.publishes(); bool expect = waits && enabled && known && !normal && !back; if (!maybe || back) REQUIRE(n_of(ov, "will") == expect, "will", "%s: some time after the restart%s the delayed will came %zu times", what.c_str(), back ? " and the return of its client" : "", n_of(ov, "will")); else REQUIRE(n_of(ov, "will") <= 1, "will", "%s: later %zu times", what.c_str(), n_of(ov, "will"));
    count("restarts"); state(what);
}
static const char *ACT[] = {"nothing", "P publishes QoS 1", "P publishes QoS 2", "X closes", "X disconnects", "a new client connects and subscribes", "X is taken over", "S subscribes", "reload", "timers, with saving state", "P sets a retained message", "O comes back", "another signal", "X breaks the protocol", "S unsubscribes", "P publishes to the one not reading", "S acknowledges", "memory trimmed", "a new client connects, and has a will", "log files reopened", "X publishes, then closes"};
static void races()
{
    const int N = sizeof ACT / sizeof *ACT; int budget = param("budget", thorough() ? 2 : 1), act = choose(N, "at the same time"), act2 = param("pairs", 0) ? choose(N, "and") : 0; if (act2 >= act && act2) prune(); bool swap = choose(2, "threads"), held = thorough() && budget < 2 && choose(2, "also after locks"); if (!thorough() && swap && act % 3 == 0 && act != 18) prune(); std::set<int> as{act, act2}; if (as.count(5) && as.count(18)) prune(); int xs = 0; for (int k : {3, 4, 6, 13, 20}) xs += as.count(k); if (xs > 1) prune();
    const std::string conf = BASE + STORE + "save_state_interval 300\nlog_file /mcfs/log\n", what = std::string(ACT[act]) + ", " + ACT[act2]; sim::fs::mkdir("/mcfs"); note("%s", what.c_str()); Server s; REQUIRE(s.start(conf), "boot", "no"); uint64_t t0 = sim::now_ns() / 1000000 - 200; Cl S("S", 5), O("O", 4), P("P", 4), X("X", 5), X2("X", 5), N1("N", 5), F("f", 4), O2("O", 4), L("L", 4);
    auto will = [](Cl &c, const char *pl) { Will w; w.topic = "w"; w.payload = pl; w.qos = 1; c.o.will = w; }; if (as.count(9)) advance(t0 + 296000 - sim::now_ns() / 1000000);
    O.o.clean = O2.o.clean = false; REQUIRE(O.connect(), "setup", "no"); REQUIRE(O.subscribe({{"w", 1}, {"t", 1}}), "setup", "no"); O.disconnect(); settle(); if (swap) REQUIRE(F.connect(), "setup", "no"); S.o.clean = false; S.o.props = {pn(P_SESSEXP, 1000)}; REQUIRE(S.connect(), "setup", "no"); REQUIRE(S.subscribe({{"w", 1}, {"t", 1}, {"z", 1}}), "setup", "no"); REQUIRE(P.connect(), "setup", "no"); X.o.props = X2.o.props = {pn(P_SESSEXP, 1000)}; X2.o.clean = false; will(X, "willX"); will(X2, "willX2"); REQUIRE(X.connect(), "setup", "no"); REQUIRE(L.connect(), "setup", "no"); REQUIRE(L.subscribe({{"l", 0}}), "setup", "no"); L.c->out_space = 0;
    REQUIRE(P.publish("r", "old", 1, true), "setup", "no"); REQUIRE(P.publish("t", "acked", 1), "setup", "no"); std::vector<Pkt> sgot; { S.pump(); for (auto &p : S.rx) sgot.push_back(p); } std::vector<unsigned> sid; for (auto &p : sgot) sid.push_back(p.id); if (as.count(9)) advance(t0 + 300000 - 20 - sim::now_ns() / 1000000);
    Actor term, fin; term.now([] { sim::deliver_signal(SIGTERM); }); fin.then([&] { int rc; return sim::finished(s.co, &rc); }, [] {}); std::vector<std::unique_ptr<Actor>> ac; bool p_acked[3] = {false, false, false};
    auto gone = [](Cl &c) { return c.c && c.closed(); }; (void)p_acked;
    for (int k : as) { ac.push_back(std::make_unique<Actor>()); Actor &a = *ac.back(); switch (k) {
        case 1: a.now([&] { P.pub("t", "m1", 1, false, {}, 101); P.pub("t", "m2", 1, false, {}, 102); }); break;
        case 2: a.now([&] { P.pub("t", "m3", 2, false, {}, 103); }).then([&] { return has(P, PUBREC); }, [&] { if (!gone(P)) P.raw(ack(4, PUBREL, 103)); }); break;
        case 3: a.now([&] { X.close(); }); break; case 4: a.now([&] { X.raw(mq::disconnect(5)); }); break;
        case 5: a.now([&] { if (sim::listening(1883)) N1.send_connect(); }).then([&] { return N1.c && has(N1, CONNACK); }, [&] { if (!gone(N1)) N1.sub({{"t", 1}}); }); break; case 18: will(N1, "willN"); a.now([&] { if (sim::listening(1883)) N1.send_connect(); }); break;
        case 6: a.now([&] { if (sim::listening(1883)) X2.send_connect(); }); break; case 7: a.now([&] { S.sub({{"y", 1}}); }); break; case 8: a.now([&] { s.write_conf(conf + "max_qos_msg_pending_per_client 50\n"); sim::deliver_signal(SIGHUP); }); break; case 9: a.now([] { sim::pass(40); }); break;
        case 10: a.now([&] { P.pub("r", "new", 1, true, {}, 104); }); break; case 11: a.now([&] { if (sim::listening(1883)) O2.send_connect(); }); break; case 12: a.now([] { sim::deliver_signal(SIGINT); }); break; case 13: a.now([&] { X.raw(std::string("\xF1\x00", 2)); }); break; case 14: a.now([&] { S.raw(mq::unsubscribe(5, 60, {"z"})); }); break;
        case 15: a.now([&] { P.pub("l", "x", 1, false, {}, 105); }); break; case 16: a.now([&] { for (unsigned id : sid) S.raw(ack(5, PUBACK, id)); }); break; case 17: a.now([] { sim::deliver_signal(SIGUSR2); }); break; case 19: a.now([] { sim::deliver_signal(SIGUSR1); }); break; case 20: a.now([&] { X.pub("t", "m4", 1, false, {}, 9); X.close(); }); break; default: break; } }
    std::vector<Actor *> all{&term}; for (auto &a : ac) all.push_back(a.get()); all.push_back(&fin); sim::sched().held = held; run_actors(budget, all, {}, {}, 2); sim::sched().held = false; std::string sch = " (schedule " + sim::schedule_trace() + ")", w = what + sch; ended(s, w);
    // endings
    bool x2 = X2.c && has(X2, CONNACK), n1 = N1.c && has(N1, CONNACK); ending(P, "P", true, w); ending(S, "S", true, w); if (swap) ending(F, "f", true, w); if (!as.count(3) && !as.count(20)) ending(X, "X", !as.count(4) && !as.count(6) && !as.count(13), w); if (n1) ending(N1, "N", true, w); else if (N1.c) ending(N1, "N", false, w); if (x2) ending(X2, "X2", true, w); else if (X2.c) ending(X2, "X2", false, w); ending(L, "L", false, w);
    auto acked = [&](Cl &c, int type, unsigned id) { c.pump(); for (auto &p : c.rx) if (p.type == type && p.id == id) return true; return false; };
    // after the restart
    Server s2; REQUIRE(s2.start(conf), "restart", "%s: doesn't start again", w.c_str()); Cl O3("O", 4), R("R", 4), S2("S", 5); O3.o.clean = false; S2.o.clean = false; S2.o.props = {pn(P_SESSEXP, 1000)}; REQUIRE(O3.connect(), "restart", "O"); REQUIRE(O3.connack.sp, "session", "%s: the offline session is gone", w.c_str()); auto ov = O3.publishes(); if (O2.c) { O2.pump(); for (auto &p : O2.rx) { if (p.type != PUBLISH) continue; bool again = false; for (auto &q : ov) again |= q.payload == p.payload; REQUIRE(again, "lost", "%s: %s, unacknowledged, isn't sent again after the restart", w.c_str(), p.payload.c_str()); } }
    auto at_o = [&](const char *pl) { return n_of(ov, pl); }; REQUIRE(at_o("acked") == 1, "lost", "%s: the message from before is there %zu times", w.c_str(), at_o("acked")); struct M { Cl *c; int t; unsigned id; const char *pl; } ms[] = {{&P, PUBACK, 101, "m1"}, {&P, PUBACK, 102, "m2"}, {&P, PUBREC, 103, "m3"}, {&X, PUBACK, 9, "m4"}};
    for (auto &m : ms) { bool k = acked(*m.c, m.t, m.id); size_t n = at_o(m.pl); if (k) { REQUIRE(n == 1, "lost", "%s: %s was acknowledged and is there %zu times after the restart", w.c_str(), m.pl, n); count("acknowledged at shutdown"); } else REQUIRE(n <= 1, "twice", "%s: %s is there %zu times", w.c_str(), m.pl, n); }
    size_t wx = at_o("willX"); if (as.count(4)) REQUIRE(wx <= 1, "will", "%s: will %zu times", w.c_str(), wx); else REQUIRE(wx == 1, "will", "%s: X's will is there %zu times", w.c_str(), wx); if (n1 && as.count(18)) REQUIRE(at_o("willN") == 1, "will-new", "%s: the will of the client that came meanwhile is there %zu times", w.c_str(), at_o("willN")); else REQUIRE(at_o("willN") <= 1, "will", "twice"); if (x2) REQUIRE(at_o("willX2") == 1, "will-new", "%s: the will of the new connection is there %zu times", w.c_str(), at_o("willX2"));
    REQUIRE(S2.connect(), "restart", "S"); REQUIRE(S2.connack.sp, "session", "%s: S's session is gone", w.c_str()); auto sv = S2.publishes(); for (auto &x : {"willX", "m1", "m2", "m3", "acked"}) { S.pump(); size_t b = n_of(std::vector<Pkt>(S.rx.begin(), S.rx.end()), x), n = n_of(sv, x); if (!as.count(16)) REQUIRE(!b || n == 1, "lost", "%s: %s was not acknowledged and is sent %zu times after the restart", w.c_str(), x, n); else REQUIRE(n <= 1, "twice", "?"); }
    REQUIRE(R.connect(), "restart", "R"); REQUIRE(R.subscribe({{"r", 1}}), "restart", "R"); auto rv = R.publishes(); if (acked(P, PUBACK, 104)) REQUIRE(n_of(rv, "new") == 1, "retained", "%s: the retained message isn't there", w.c_str()); else REQUIRE(n_of(rv, "new") + n_of(rv, "old") == 1, "retained", "%s: no retained message", w.c_str());
    REQUIRE(R.publish("y", "y", 1) && R.publish("z", "z", 1), "restart", "R publishes"); sv = S2.publishes(); if (has(S, SUBACK) && as.count(7)) { size_t n = 0; for (auto &p : S.rx) n += p.type == SUBACK; if (n) REQUIRE(n_of(sv, "y") == 1, "subscription", "%s: the subscription is gone", w.c_str()); } size_t un = 0; for (auto &p : S.rx) un += p.type == UNSUBACK; REQUIRE(!un ? n_of(sv, "z") == 1 || as.count(14) : n_of(sv, "z") == 0, "subscription", "%s: with %zu UNSUBACK %zu messages", w.c_str(), un, n_of(sv, "z")); count("restarts"); state(what);
}
// A signal at every step of starting up, with a saved state to load
static void startup()
{
    int sig = choose(2, "signal"); const std::string conf = BASE + STORE + "log_file /mcfs/log\n"; sim::fs::mkdir("/mcfs"); Server s; REQUIRE(s.start(conf), "boot", "no"); Cl O("O", 4), P("P", 4); O.o.clean = false; REQUIRE(O.connect(), "setup", "no"); REQUIRE(O.subscribe({{"t", 1}}), "setup", "no"); O.disconnect(); REQUIRE(P.connect(), "setup", "no"); REQUIRE(P.publish("t", "m", 1) && P.publish("r", "kept", 1, true), "setup", "no"); P.disconnect(); settle(); REQUIRE(s.stop(), "setup", "stop");
    Server s2; s2.write_conf(conf); uint64_t max = param("steps", 400), at = choose((int)max, "step"), k = 0; bool sent = false; sim::set_on_step([&] { if (k++ == at) { sim::deliver_signal(sig ? SIGINT : SIGTERM); sent = true; } }); s2.co = sim::boot({"flashmq", "-c", s2.base}, &fmq_real_main); for (int i = 0; i < 30 && !sent; i++) { settle(); sim::pass(20); } sim::set_on_step(nullptr); note("signal at step %llu", (unsigned long long)at);
    if (!sent) { count("starts that had fewer steps"); prune(); } int rc = -1; for (int i = 0; i < 100 && !sim::finished(s2.co, &rc); i++) advance(20); if (!sim::finished(s2.co, &rc)) { count("too early to be handled"); REQUIRE(s2.stop(), "hangs", "after a signal at step %llu it runs on, and can't be stopped", (unsigned long long)at); } else { REQUIRE(rc == 0, "status", "signal at step %llu: exit status %d", (unsigned long long)at, rc); count("shutdowns"); }
    Server s3; REQUIRE(s3.start(conf), "restart", "no"); Cl O2("O", 4), R("R", 4); O2.o.clean = false; REQUIRE(O2.connect(), "restart", "O"); REQUIRE(O2.connack.sp && n_of(O2.publishes(), "m") == 1, "lost", "after a signal at step %llu of starting, the saved session is lost", (unsigned long long)at); REQUIRE(R.connect(), "restart", "R"); REQUIRE(R.subscribe({{"r", 1}}), "restart", "R"); REQUIRE(n_of(R.publishes(), "kept") == 1, "lost", "after a signal at step %llu of starting, the saved retained message is lost", (unsigned long long)at); state(std::to_string(at));
}
// A bridge in every stage of its life
static void bridges()
{
    static const char *ST[] = {"connection pending", "connection refused", "name not found", "CONNECT unanswered", "not subscribed yet", "connected", "message unacknowledged", "QoS 2 half way", "waiting after a loss", "doesn't read", "reload away"}; int ver = 3 + choose(3, "version"), st = choose(11, "state"), n = 1 + choose(2, "bridges"), con = choose(2, "connections"), dis = thorough() ? choose(3, "signal") : 0; const std::string names[] = {"", "", "", "mqtt3.1", "mqtt3.1.1", "mqtt5"};
    std::string conf = BASE + STORE; for (int i = 0; i < n; i++) conf += "bridge {\naddress " + std::string(st == 2 && !i ? "no.such.name" : "10.9.9." + std::to_string(i + 1)) + "\nport 1999\nprotocol_version " + names[ver] + "\nclientid_prefix b" + std::to_string(i) + "\nuse_saved_clientid true\nremote_clean_start false\nlocal_clean_start false\n" + (ver == 5 ? "remote_session_expiry_interval 1000\n" : "") + "local_session_expiry_interval 1000\nsubscribe in/# 1\npublish out/# 2\n" + (con ? "connection_count 2\n" : "") + "}\n"; if (con && ver < 5) prune();
    std::string what = names[ver] + " bridge, " + ST[st]; note("%s; %d bridges", what.c_str(), n); int hang = EINPROGRESS; sim::net().resolve = [](const std::string &h, std::vector<std::string> &out) { if (h == "no.such.name") return -2; out = {h}; return 0; }; sim::net().connect = [&](const std::string &d, int) { return st == 1 && d == "10.9.9.1" ? 111 : st == 0 && d == "10.9.9.1" ? hang : 0; };
    Server s; REQUIRE(s.start(conf), "boot", "no");  struct R { sim::ConnP c; std::string buf; std::deque<Pkt> rx; bool up = false; }; std::vector<R> rs; size_t used = 0; auto scan = [&] { settle(); auto &o = sim::outgoing(); for (; used < o.size(); used++) if (o[used]->connect_state == 1) { rs.emplace_back(); rs.back().c = o[used]; } }; auto pump = [&](R &r) { r.buf += sim::take(r.c); for (;;) { Pkt p; std::string e; int k = decode(r.buf, ver, p, e, true); if (k == 0) return; REQUIRE(k > 0, "garbage", "%s: %s", what.c_str(), e.c_str()); r.rx.push_back(p); } }; auto pop = [&](R &r, int type) -> std::optional<Pkt> { settle(); pump(r); for (auto i = r.rx.begin(); i != r.rx.end(); ++i) if (i->type == type) { Pkt p = *i; r.rx.erase(i); return p; } return {}; };
    auto greet = [&](R &r, bool sub = true) { REQUIRE(pop(r, CONNECT), "setup", "no CONNECT"); sim::feed(r.c, mq::connack(ver, false, 0)); r.up = true; if (!sub) return; auto k = pop(r, SUBSCRIBE); REQUIRE(k, "setup", "no SUBSCRIBE"); sim::feed(r.c, mq::suback(ver, k->id, {1})); settle(); };
    scan(); for (int i = 0; i < 14 && rs.size() < (size_t)((n - (st <= 2)) * (con + 1)); i++) { advance(500); scan(); } if (st <= 2) advance(6000); scan(); REQUIRE(rs.size() == (size_t)((n - (st <= 2)) * (con + 1)), "setup", "%zu connections", rs.size()); for (auto &r : rs) { bool first = st > 2 && &r == &rs[0]; if (first && st == 3) continue; greet(r, !(first && st == 4)); } int late = rs.empty() ? 0 : rs[0].c->dest.back() - '1'; Cl P("P", 4); REQUIRE(P.connect(), "setup", "no"); bool sent = st >= 5 && st != 10;
    if (st == 9) rs[0].c->out_space = 0; if (st == 8) { for (auto &r : rs) sim::close_peer(r.c); settle(); } REQUIRE(P.publish("out/1", "m", 2), "setup", "no"); if (st == 7) for (auto &r : rs) { auto k = pop(r, PUBLISH); if (k) sim::feed(r.c, ack(ver, PUBREC, k->id)); settle(); } if (st == 10) { s.write_conf(BASE + STORE); s.reload(); }
    sim::deliver_signal(dis == 1 ? SIGINT : SIGTERM); if (dis == 2) sim::deliver_signal(SIGTERM); ended(s, what); for (auto &r : rs) { bool first = st > 2 && &r == &rs[0]; REQUIRE(r.c->srv_closed || r.c->fin, "open", "%s: the connection of the bridge stays open", what.c_str()); pump(r); if (st == 8 || st == 10 || (first && (st == 3 || st == 9))) continue; size_t d = 0; for (auto &p : r.rx) d += p.type == DISCONNECT; if (ver == 5) REQUIRE(d == 1 && r.rx.back().type == DISCONNECT && (r.rx.back().rc == 0 || r.rx.back().rc == -1), "told", "%s: the other end isn't told with DISCONNECT at the end", what.c_str()); else REQUIRE(d <= 1, "told", "%s: %zu DISCONNECTs", what.c_str(), d); count("other ends told"); }
    ending(P, "P", true, what); if (st == 10 || ver == 3) { state(what); return; } // and it goes on where it was
    size_t before = sim::outgoing().size(); used = before; rs.clear(); hang = 0; st = -st; Server s2; REQUIRE(s2.start(conf), "restart", "%s", what.c_str()); if (st == -2) { state(what); return; } for (int i = 0; i < 20 && rs.size() < (size_t)n * (con + 1); i++) { advance(500); scan(); } REQUIRE(rs.size() == (size_t)n * (con + 1), "restart", "%s: %zu connections", what.c_str(), rs.size()); std::map<std::string, int> got, rel; (void)sent;
    for (auto &r : rs) { auto k = pop(r, CONNECT); REQUIRE(k, "restart", "no CONNECT"); sim::feed(r.c, mq::connack(ver, true, 0)); settle(); std::string who = k->co.id.substr(0, 2); pump(r); for (auto &p : r.rx) { if (p.type == PUBLISH && p.payload == "m") got[who]++; if (p.type == PUBREL) rel[who]++; } }
    for (int i = 0; i < n; i++) { std::string b = "b" + std::to_string(i); int k = got[b] + rel[b]; bool never = (st >= -2 && i == 0) || (st == -3 && i == late); REQUIRE(never ? k <= 1 : k == 1, "lost", "%s: after the restart, bridge %s sends the message %d and PUBREL %d times", what.c_str(), b.c_str(), got[b], rel[b]); } count("bridges restarted"); state(what);
}
CHECK(P37, "") { int part = param("part", -1); switch (part < 0 ? choose(4, "part") : part) { case 0: quiet(); break; case 1: races(); break; case 2: bridges(); break; default: startup(); } }
