// P17 At most one connection per client id, and the newest wins.
#include "conc.h"
using namespace mc;
using namespace mq;
struct Kind { const char *name; int ver; bool clean; uint32_t expiry; int delay; bool persists() const { return ver >= 5 ? expiry > 0 : !clean; } };
// what a connection asks for; its will is immediate or delayed
static const Kind K[] = {{"3.1.1 persistent", 4, false, 0, 0}, {"5 continuing, expiry 1000", 5, false, 1000, 0}, {"3.1.1 clean", 4, true, 0, 0}, {"5 clean start, expiry 1000, delayed will", 5, true, 1000, 5}, {"5 continuing, expiry 1000, delayed will", 5, false, 1000, 5}, {"5 continuing, expiry 0", 5, false, 0, 0}, {"3.1 persistent", 3, false, 0, 0}, {"5 clean start, expiry 1000", 5, true, 1000, 0}};
static const char *PRIOR[] = {"none", "online", "offline", "about to expire", "offline with its will about to be sent"};
static const char *EV[] = {"nothing", "a publish", "the old one closes", "the old one disconnects", "the old one subscribes and publishes", "the second comes after the first was accepted", "the first closes at once", "the old one unsubscribes"};
static void setup(Cl &c, const Kind &k, const std::string &will, const char *id = "X") { c.o.id = id; c.o.ver = k.ver; c.o.clean = k.clean; c.o.keepalive = k.ver >= 5 ? 60000 : 0; Will w; w.topic = "w"; w.payload = will; w.qos = 1; if (k.ver >= 5) { if (k.expiry) c.o.props.push_back(pn(P_SESSEXP, k.expiry)); if (k.delay) w.props.push_back(pn(P_WILLDELAY, k.delay)); } c.o.will = w; }
static size_t n_of(const std::vector<Pkt> &v, const std::string &pl) { size_t n = 0; for (auto &p : v) n += p.payload == pl; return n; }
static void takeover()
{
    int n = thorough() ? 1 + choose(3, "connections") : 2, budget = param("budget", thorough() && n < 3 ? 2 : 1), prior = choose(5, "prior session"); int ev = choose(8, "at the same time");
    if ((prior != 1 && (ev == 2 || ev == 3 || ev == 4 || ev == 7)) || ((ev == 5 || ev == 6) && n == 1)) prune();
    int nk = thorough() ? 8 : 5; int k0 = prior ? choose(nk, "kind of the old one") : 0; if (prior >= 2 && !K[k0].persists()) prune(); if ((prior == 3 || prior == 4) && K[k0].ver < 5) prune(); if (prior == 4 && !K[k0].delay) prune(); if (prior == 3 && K[k0].delay) prune();
    std::vector<int> kk; for (int i = 0; i < n; i++) kk.push_back(choose(n == 3 ? 5 : nk, "kind")); if (!thorough() && prior == 1 && ev > 1 && kk[0] > 1) prune(); if (!thorough() && ((prior == 1 && k0 == 1) || kk[0] == kk[1])) prune();
    bool swap = thorough() && choose(2, "threads"); Server s; REQUIRE(s.start("expire_sessions_after_seconds 100000\n"), "boot", "no"); uint64_t t0 = sim::now_ns() / 1000000 - 200;
    std::vector<std::unique_ptr<Cl>> keep; auto filler = [&](const char *id) -> Cl & { keep.push_back(std::make_unique<Cl>(id, 4)); REQUIRE(keep.back()->connect(), "setup", "no"); return *keep.back(); };
    Cl &W = filler("W"), &P = filler("P"); REQUIRE(W.subscribe({{"w", 1}}), "setup", "no"); if (swap) filler("f");
    Kind k = K[k0]; if (prior == 3) k.expiry = 2; Cl X0("X"); setup(X0, k, "will0"); if (prior) { REQUIRE(X0.connect(), "setup", "no"); REQUIRE(X0.subscribe({{"t", 1}}), "setup", "no"); } if (prior >= 2) { if (prior == 4) X0.close(); else X0.disconnect(); settle(); }
    auto until = [&](uint64_t ms) { advance(t0 + ms - 20 - sim::now_ns() / 1000000); }; if (prior == 3) until(20000); if (prior == 4) until(6000); // what is due is done by a timer that runs every 10 or 2 seconds
    note("old one: %s (%s); %s", PRIOR[prior], K[k0].name, EV[ev]); std::vector<std::unique_ptr<Cl>> X; for (int i = 0; i < n; i++) { X.push_back(std::make_unique<Cl>("X")); setup(*X[i], K[kk[i]], "will" + std::to_string(i + 1)); note("connection %d: %s", i + 1, K[kk[i]].name); }
    std::vector<Actor> a(n); Actor e; for (int i = 0; i < n; i++) { if (i == 1 && ev == 5) a[i].then([&] { return has(*X[0], CONNACK); }, [&, i] { X[i]->send_connect(); }); else a[i].now([&, i] { X[i]->send_connect(); if (i == 0 && ev == 6) X[0]->close(); }); }
    bool unsub = false; switch (ev) { case 1: e.now([&] { P.pub("t", "during", 1, false, {}, 90); }).then([&] { return has(P, PUBACK); }, [] {}); break; case 2: e.now([&] { X0.close(); }); break; case 3: e.now([&] { X0.raw(mq::disconnect(X0.o.ver)); }); break; case 4: e.now([&] { X0.raw(mq::subscribe(X0.o.ver, 50, {{"u", 1}}) + mq::publish(X0.o.ver, "x", "frombefore", 1, 51)); }); break; case 7: e.now([&] { X0.raw(mq::unsubscribe(X0.o.ver, 50, {"t"})); unsub = true; }); break; }
    std::vector<Actor *> as{&e}; for (auto &x : a) as.push_back(&x); bool ok = run_actors(budget, as, [&] { if (prior >= 3) sim::pass(40); }); const std::string sch = sim::schedule_trace(); REQUIRE(ok, "answer", "a request wasn't answered; schedule %s", sch.c_str());
    std::vector<int> sp; int open = -1, nopen = 0; std::vector<bool> dis;
    for (int i = 0; i < n; i++) { auto &c = *X[i]; bool gone = i == 0 && ev == 6; c.pump(); REQUIRE(c.decode_error.empty(), "garbage", "connection %d: %s; schedule %s", i + 1, c.decode_error.c_str(), sch.c_str()); sp.push_back(-1); dis.push_back(false); if (gone || (c.closed() && c.rx.empty() && !c.v5())) continue; // taken over before the answer left
        REQUIRE(!c.rx.empty() && c.rx[0].type == CONNACK && c.rx[0].rc == 0, "connack", "the first packet on connection %d is %s; schedule %s", i + 1, c.rx.empty() ? "none" : c.rx[0].txt().c_str(), sch.c_str()); sp[i] = c.rx[0].sp; int acks = 0; for (auto &p : c.rx) acks += p.type == CONNACK; REQUIRE(acks == 1, "connack", "%d CONNACKs", acks);
        if (!c.closed()) { open = i; nopen++; } else if (c.v5()) { REQUIRE(c.rx.back().type == DISCONNECT && c.rx.back().rc == 0x8E, "reason", "closed connection %d ends with %s; schedule %s", i + 1, c.rx.back().txt().c_str(), sch.c_str()); } else for (auto &p : c.rx) REQUIRE(p.type != DISCONNECT, "reason", "MQTT 3 got a DISCONNECT"); }
    if (prior == 1) { REQUIRE(ev == 2 || X0.closed(), "two", "the old connection is still open; schedule %s", sch.c_str()); if (X0.v5() && ev != 2 && ev != 3) { X0.pump(); REQUIRE(!X0.rx.empty() && X0.rx.back().type == DISCONNECT && X0.rx.back().rc == 0x8E, "reason", "the old connection ends with %s; schedule %s", X0.rx.empty() ? "nothing" : X0.rx.back().txt().c_str(), sch.c_str()); } }
    REQUIRE(nopen <= 1, "two", "%d connections stay open; schedule %s", nopen, sch.c_str()); if (ev != 6) REQUIRE(nopen == 1, "none", "no connection stays; schedule %s", sch.c_str()); if (ev == 5) REQUIRE(n == 3 || open == 1, "newest", "the newer connection was closed; schedule %s", sch.c_str());
    advance(14000); if (open >= 0) REQUIRE(!X[open]->closed(), "none", "the last connection was closed later; schedule %s", sch.c_str());
    auto wp = W.publishes(); std::vector<size_t> wills; for (int i = 0; i <= n; i++) wills.push_back(n_of(wp, "will" + std::to_string(i)));
    P.all(); REQUIRE(P.publish("t", "probe", 1), "answer", "PUBACK"); REQUIRE(P.publish("u", "probeu", 1), "answer", "PUBACK"); bool gt = false, gu = false, during = false; if (open >= 0) { auto v = X[open]->publishes(); gt = n_of(v, "probe") == 1; gu = n_of(v, "probeu") == 1; during = n_of(v, "during") >= 1; std::string got; for (auto &p : v) got += p.txt() + " "; REQUIRE(n_of(v, "during") <= 1, "twice", "a message was sent twice to one connection: %s; schedule %s", got.c_str(), sch.c_str()); REQUIRE(n_of(v, "probe") <= 1, "twice", "probe"); }
    // is there an order of the connections that explains all this?
    std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(i); std::string why; bool explained = false; int drop = ev == 6 ? 2 : 1;
    for (int d = 0; d < drop && !explained; d++) { std::vector<int> o = ord; if (d) o.erase(o.begin()); std::sort(o.begin(), o.end()); do {
        if (ev == 5) { int p0 = std::find(o.begin(), o.end(), 0) - o.begin(), p1 = std::find(o.begin(), o.end(), 1) - o.begin(); if (p1 < p0) continue; }
        for (int variant = 0; variant < 8 && !explained; variant++) { // what of the simultaneous events came before the first connection
            bool exp_removed = variant & 1, will_sent = variant & 2, gone_before = variant & 4; if (exp_removed && prior != 3) continue; if (will_sent && prior != 4 && !(ev == 3 && prior == 1)) continue; if (gone_before && !(prior == 1 && (ev == 2 || ev == 3))) continue;
            bool exists = prior != 0 && !exp_removed && (prior != 1 || K[k0].persists()), sub = exists; bool usub = ev == 4; std::vector<size_t> w(n + 1, 0); std::string e2; bool first = true; int last = -1; (void)usub;
            if (prior == 1) { if (ev == 3 && (will_sent == false)) w[0] = 0; else w[0] = 1; if (K[k0].delay && w[0]) { bool cont = K[kk[o.empty() ? 0 : o[0]]].persists() || true; (void)cont; w[0] = (o.empty() || K[kk[o[0]]].clean || !K[k0].persists()) ? 1 : 0; } } // taken over or closed
            if (prior == 4) { w[0] = will_sent ? 1 : (o.empty() || K[kk[o[0]]].clean) ? 1 : 0; } bool cont_all = exists;
            for (size_t q = 0; q < o.size(); q++) { int i = o[q]; auto &kind = K[kk[i]]; bool present = exists && !kind.clean; if (sp[i] >= 0 && sp[i] != present) e2 += "session present of " + std::to_string(i + 1) + " "; if (!present) { sub = false; cont_all = false; } exists = kind.persists(); if (!exists && q + 1 < o.size()) { cont_all = false; } last = i; first = false;
                if (q + 1 < o.size()) w[i + 1] = kind.delay == 0 ? 1 : (K[kk[o[q + 1]]].clean || !kind.persists()) ? 1 : 0; else if (i == 0 && ev == 6) w[i + 1] = 1; }
            for (size_t q = 0; q + 1 < o.size(); q++) if (!K[kk[o[q]]].persists()) sub = false; if (ev == 6 && o.size() > 1 && o[0] == 0 && false) e2 = "";
            int exp_open = ev == 6 && last == 0 ? -1 : last; if (exp_open != open) e2 += "open "; if (open >= 0 && exp_open == open) { bool s2 = sub; if (unsub && gt != s2 && !gt) s2 = gt; if (gt != s2) e2 += "subscription "; if (gu && !(sub || (ev == 4 && cont_all))) e2 += "new subscription "; if (ev == 1 && sub && !during) e2 += "message lost "; }
            for (int i = 0; i <= n; i++) { bool loose = (i == 1 && ev == 6); if (loose) { if (w[i] != wills[i] && wills[i] > 1) e2 += "will "; } else if (w[i] != wills[i]) e2 += "will" + std::to_string(i) + "=" + std::to_string(wills[i]) + " "; }
            (void)first; if (e2.empty()) explained = true; else { why += "["; for (int i : o) why += std::to_string(i + 1); why += ": " + e2 + "] "; }
        }
    } while (!explained && std::next_permutation(o.begin(), o.end())); }
    REQUIRE(explained, why.find("will") != std::string::npos ? "will" : "session", "no order of the connections explains what was seen (open %d, session present %d %d, subscribed %d): %s; schedule %s", open + 1, sp[0], n > 1 ? sp[1] : -1, gt, why.c_str(), sch.c_str());
    // the last one's will and session are unharmed
    if (open >= 0) { auto &kind = K[kk[open]]; X[open]->close(); advance(200); if (kind.delay) advance(8000); else advance(200); auto v = W.publishes(); REQUIRE(n_of(v, "will" + std::to_string(open + 1)) == 1, "will", "the will of the last connection was sent %zu times at its end; schedule %s", n_of(v, "will" + std::to_string(open + 1)), sch.c_str());
        Cl Z("X"); Z.o.clean = false; Z.o.ver = 4; REQUIRE(Z.connect(), "answer", "later connection"); REQUIRE(Z.connack.sp == kind.persists(), "session", "later, session present is %d; schedule %s", Z.connack.sp, sch.c_str()); REQUIRE(P.publish("t", "probe2", 1), "answer", "PUBACK"); size_t g = n_of(Z.publishes(), "probe2"); REQUIRE(g == (gt && kind.persists()), "session", "later, %zu messages for the subscription; schedule %s", g, sch.c_str()); }
    count("takeovers"); state(std::string(PRIOR[prior]) + EV[ev] + std::to_string(open));
}
CHECK(P17, "") { takeover(); }
