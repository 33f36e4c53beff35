// P10 Nothing is possible before successful authentication.
#include "mqtt.h"
#include "model.h"
#include "plugin.h"
using namespace mc;
using namespace mq;
static void answer(const std::weak_ptr<Client> &c, AuthResult r, const std::string &m, const std::string &d) { flashmq_continue_async_authentication_v4(c, r, m, d, 0); }
enum St { PRE, PEND, CONT, AUTHED, DEAD };
static const char *STN[] = {"before CONNECT", "waiting", "exchanging", "accepted", "refused"};
enum Op { CONN, PUB, PUBR, SUB, UNSUB, PING, AUTHC, AUTHR, AUTHX, DISC, DISCW, CLOSE, ANSWER, WAIT, PUB2, REL, NOPS };
static const char *OPN[] = {"CONNECT", "PUBLISH", "PUBLISH retained", "SUBSCRIBE", "UNSUBSCRIBE", "PINGREQ", "AUTH continue", "AUTH reauthenticate", "AUTH other method", "DISCONNECT", "DISCONNECT with will", "close", "answer", "wait", "PUBLISH QoS 2", "PUBREL"};
static const AuthResult DENY[] = {AuthResult::login_denied, AuthResult::acl_denied, AuthResult::error, AuthResult::server_not_available, AuthResult::auth_method_not_supported};
struct World {
    Server s; Cl V, W, A; bool same, ext; int ver; St st = PRE; bool asy = false, was_authed = false, pending = false; std::weak_ptr<Client> w; std::deque<int> answers; int calls = 0, model_calls = 0;
    std::vector<std::string> expect, got, deferred; std::map<std::string, std::string> retained; bool a_sub = false, v_sub = true, will_due = false, refused = false, protoerr = false, died_in_batch = false, sawconnack = false; int n = 0, wantrc = 0; std::vector<std::string> rep; unsigned pings = 0, wantpings = 0; bool rel = false;
    int decide(bool first_ext) // what the plugin says: 0 success, 1.. refusals, 6 throw, 7 async, 8 continue
    {
        static const int PLAIN[] = {0, 1, 3, 6, 7}, EXT[] = {0, 1, 7, 8}; int a = first_ext ? EXT[choose(4, "answer")] : PLAIN[choose(thorough() ? 5 : 5, "answer")]; answers.push_back(a); calls++; return a;
    }
    AuthResult ar(int a) { if (a == 6) throw std::runtime_error("plugin"); return a == 0 ? AuthResult::success : a == 7 ? AuthResult::async : a == 8 ? AuthResult::auth_continue : DENY[a - 1]; }
    void hooks()
    {
        plugin().login = [this](const std::string &, const std::string &u, const std::string &, const std::weak_ptr<Client> &c) { if (u != "att") return AuthResult::success; int a = decide(false); if (a == 7) { w = c; pending = true; } return ar(a); };
        plugin().extauth = [this](const std::string &, ExtendedAuthStage, const std::string &m, const std::string &, std::string &, std::string &, const std::weak_ptr<Client> &c) { if (m != "M") return AuthResult::auth_method_not_supported; int a = decide(true); if (a == 7) { w = c; pending = true; } return ar(a); };
    }
    void effect(const std::string &e) // of a packet that counts
    {
        if (e[0] == 'p') { expect.push_back(e.substr(1)); } else if (e[0] == 'r') { expect.push_back(e.substr(1)); retained["t/" + e.substr(1)] = e.substr(1); } else if (e[0] == '2') { expect.push_back(e.substr(1)); }
        else if (e == "s") a_sub = true; else if (e == "u") v_sub = false; else if (e == "i") wantpings++;
    }
    void accepted() { was_authed = true; st = AUTHED; for (auto &e : deferred) effect(e); deferred.clear(); asy = false; }
    void die(bool will) { if (st == AUTHED && will) expect.push_back("will"); st = DEAD; deferred.clear(); }
    void outcome(int a, bool reauth)
    {
        if (a == 0) { if (!reauth) accepted(); else rep.push_back("AUTH0"); } else if (a == 7) { if (st != AUTHED) { st = PEND; asy = true; } } else if (a == 8) { if (st != AUTHED) st = asy ? PEND : CONT; rep.push_back("AUTH24"); }
        else if (!reauth) { refused = true; wantrc = a == 6 ? 13 : a; st = DEAD; deferred.clear(); } else { rep.push_back("DISC"); die(true); }
    }
    int take() { model_calls++; REQUIRE(!answers.empty(), "not-asked", "the plugin wasn't asked"); int a = answers.front(); answers.pop_front(); return a; }
    std::string bytes(Op o)
    {
        std::string k = std::to_string(++n);
        switch (o) {
        case CONN: return mq::connect(A.o);
        case PUB: return mq::publish(ver, "t/" + k, k, 0); case PUBR: return mq::publish(ver, "t/" + k, k, 1, 10 + n, true);
        case PUB2: return mq::publish(ver, "t/" + k, k, 2, 50); case REL: return mq::ack(ver, PUBREL, 50);
        case SUB: return mq::subscribe(ver, 100 + n, {{"s/#", 1}}); case UNSUB: return mq::unsubscribe(ver, 100 + n, {"v/#"}); case PING: return mq::pingreq();
        case AUTHC: return mq::auth(0x18, {ps(P_AUTHMETHOD, "M"), ps(P_AUTHDATA, "d" + k)}); case AUTHR: return mq::auth(0x19, {ps(P_AUTHMETHOD, "M")}); case AUTHX: return mq::auth(0x18, {ps(P_AUTHMETHOD, "X")});
        case DISC: return mq::disconnect(ver); case DISCW: return mq::disconnect(ver, ver >= 5 ? 4 : -1); default: return "";
        }
    }
    void model(Op o, int k) // the reference
    {
        if (st == DEAD) return; std::string ks = std::to_string(k); auto eff = [&](const std::string &e) { if (st == AUTHED) effect(e); else if (asy) deferred.push_back(e); };
        switch (o) {
        case CONN: if (st != PRE) { protoerr = true; die(true); return; } outcome(take(), false); break;
        case PUB: eff("p" + ks); break; case PUBR: eff("r" + ks); break; case PUB2: if (!rel) eff("2" + ks); break; case SUB: eff("s"); break; case UNSUB: eff("u"); break; case PING: eff("i"); break; case REL: break;
        case AUTHC: case AUTHR: case AUTHX: if (!ext || st == PRE || o == AUTHX || (o == AUTHR && st != AUTHED)) { protoerr = true; die(true); return; } outcome(take(), st == AUTHED); break;
        case DISC: die(false); break; case DISCW: die(ver >= 5); break; case CLOSE: die(true); break; default: break;
        }
    }
    void verify(bool batch, const char *when)
    {
        bool alive = st != DEAD; REQUIRE(answers.empty(), "asked", "%s: the plugin was asked without need (%s)", when, STN[st]);
        for (auto &p : W.publishes()) got.push_back(p.topic == "aw" ? "will" : p.payload);
        if (got != expect) { std::string a, b; for (auto &x : expect) a += x + " "; for (auto &x : got) b += x + " "; fail(got.size() > expect.size() ? "effect" : "lost", "%s (%s): published should be %s, is %s", when, STN[st], a.c_str(), b.c_str()); }
        for (auto &p : A.all()) {
            if (p.type == CONNACK) { REQUIRE(!sawconnack, "connack-twice", "second CONNACK"); sawconnack = true; if (p.rc == 0) REQUIRE(was_authed, "accepted", "%s: CONNACK with success while %s", when, STN[st]); else { REQUIRE(refused || protoerr, "refused", "%s: CONNACK %d while %s", when, p.rc, STN[st]); if (refused) { static const int R5[] = {0, 0x87, 0x87, 0x80, 0x88, 0x8c}; int wr = wantrc == 13 ? 0x80 : R5[wantrc]; REQUIRE(ver < 5 ? p.rc >= 1 && p.rc <= 5 : p.rc == wr, "code", "CONNACK with %d instead of %d", p.rc, wr); } } continue; }
            if (p.type == AUTH) { REQUIRE(!rep.empty() && rep.front() == "AUTH" + std::to_string(p.rc), "auth", "%s: unexpected AUTH %d", when, p.rc); rep.erase(rep.begin()); continue; }
            if (p.type == DISCONNECT) { REQUIRE(protoerr || (!rep.empty() && rep.front() == "DISC"), "disconnect", "%s: unexpected %s", when, p.txt().c_str()); continue; }
            REQUIRE(was_authed && sawconnack, "reply", "%s: %s before the CONNACK", when, p.txt().c_str()); if (p.type == PINGRESP) pings++;
        }
        if (alive || !batch) { if (was_authed) REQUIRE(sawconnack, "no-connack", "%s: no CONNACK", when); REQUIRE(pings == wantpings || !alive, "pings", "%s: %u PINGRESP instead of %u", when, pings, wantpings); for (auto &r : rep) REQUIRE(r == "DISC", "no-reply", "%s: no %s", when, r.c_str()); }
        if (refused) REQUIRE(sawconnack, "no-refusal", "%s: refused without CONNACK", when);
        if (alive) REQUIRE(!A.closed(), "closed", "%s: closed while %s", when, STN[st]); else { REQUIRE(A.closed() || A.c->srv_closed || A.c->fin, "open", "%s: connection still open", when); }
        bool vgone = same && was_authed; REQUIRE(V.closed() == vgone, "takeover", "%s: the connection with the same client id is %s", when, vgone ? "still open" : "gone");
    }
    void finish()
    {
        settle(); advance(3000, 500); verify(true, "at the end"); // nothing comes later
        if (!(same && was_authed)) { REQUIRE(V.ping(), "victim", "doesn't answer"); W.pub("v/x", "V", 0); settle(); auto ps_ = V.publishes(); REQUIRE(ps_.size() == 1, "victim-sub", "subscription of the other client: %zu messages", ps_.size()); W.publishes(); }
        if (st == AUTHED) { W.pub("s/x", "S", 0); W.pub("v/x", "V", 0); settle(); int s1 = 0, v1 = 0; for (auto &p : A.publishes()) (p.topic == "s/x" ? s1 : v1)++; REQUIRE(s1 == (a_sub ? 1 : 0), "own-sub", "%d", s1); REQUIRE(v1 == (same && v_sub), "kept-sub", "%d", v1); W.publishes(); }
        Cl R("R", 4); R.o.user = "w"; REQUIRE(R.connect(), "probe", "no"); R.subscribe({{"t/#", 0}}); std::map<std::string, std::string> g; for (auto &p : R.publishes()) if (p.retain) g[p.topic] = p.payload; REQUIRE(g == retained, "retained", "%zu retained messages instead of %zu", g.size(), retained.size());
        if (!same) { Cl N("new", 4); N.o.user = "att"; N.o.clean = false; bool present = was_authed; plugin().login = nullptr; if (st == AUTHED) { A.close(); settle(); } REQUIRE(N.connect(), "probe", "no"); REQUIRE(N.connack.sp == present, "session", "session present %d instead of %d", N.connack.sp, present); }
        count(STN[st]);
    }
};
static std::string conf() { return std::string(PLUGIN_CONF) + "allow_anonymous false\nthread_count 2\nlisten {\n  protocol mqtt\n  inet_protocol ip4\n  port 1883\n}\nlisten {\n  protocol mqtt\n  inet_protocol ip4\n  port 1884\n  allow_anonymous true\n}\n"; }
static void sequence(bool batch)
{
    World w; install_plugin(); w.ver = choose(2, "version") ? 5 : 4; w.ext = w.ver == 5 && choose(2, "method"); w.same = choose(2, "client id"); w.hooks();
    REQUIRE(w.s.start(conf(), false), "boot", "no"); w.V = Cl("me", 5); w.V.o.user = "att"; w.V.o.clean = false; w.V.o.props = {pn(P_SESSEXP, 1000)}; auto l = plugin().login; plugin().login = nullptr; REQUIRE(w.V.connect(), "setup", "no"); w.V.subscribe({{"v/#", 1}}); plugin().login = l;
    w.W = Cl("W", 4); w.W.o.user = "w"; REQUIRE(w.W.connect(), "setup", "no"); w.W.subscribe({{"t/#", 0}, {"aw", 0}});
    Cl &A = w.A; A = Cl(w.same ? "me" : "new", w.ver); A.o.clean = false; A.o.will = Will{"aw", "will", 0, false, {}}; if (w.ver == 5) A.o.props = {pn(P_SESSEXP, 1000)}; if (w.ext) { A.o.props.push_back(ps(P_AUTHMETHOD, "M")); A.o.user = "att"; } else { A.o.user = "att"; A.o.pass = "p"; } REQUIRE(A.open(), "setup", "connect"); settle();
    int depth = batch ? param("bdepth", thorough() ? 5 : 3) : param("depth", thorough() ? 5 : 4); bool closedself = false, didpub2 = false; std::string feed; std::vector<std::pair<Op, int>> todo;
    auto flush = [&](const char *when) { if (!feed.empty()) A.raw(feed); feed.clear(); settle(); for (auto &p : todo) { w.model(p.first, p.second); } todo.clear(); w.verify(batch, when); };
    for (int i = 0; i < depth; i++) {
        static const Op OPS[] = {CONN, PUB, PUBR, SUB, UNSUB, PING, DISCW, CLOSE, ANSWER, WAIT, AUTHC, AUTHR, AUTHX, DISC, PUB2}; // the last ones not always
        int nops = thorough() ? 15 : 13; Op o = OPS[choose(nops, "op")]; if (!w.ext && (o == AUTHR || o == AUTHX)) prune(); if (w.ver < 5 && o == AUTHC) prune(); if (batch && (o == WAIT)) prune(); if (i == 0 && (o == WAIT || o == ANSWER || o == CLOSE)) prune();
        bool srvknown = batch; if (!srvknown && w.st == DEAD && o != ANSWER) { break; } if (o == PUB2) { if (didpub2) prune(); didpub2 = true; }
        if (o == WAIT && i + 1 == depth) prune(); note("%s", OPN[o]);
        if (o == ANSWER) { if (batch) flush("before the answer"); if (!w.pending) prune(); int a = choose(w.ext ? 4 : 3, "answer later"); static const int AN[] = {0, 1, 4, 8}; a = AN[a]; note("plugin answers %d", a); w.pending = false; bool authed = w.st == AUTHED; bool live = w.st == PEND || (authed && w.ext) || w.st == CONT; AuthResult r = a == 0 ? AuthResult::success : a == 8 ? AuthResult::auth_continue : DENY[a - 1];
            answer(w.w, r, w.ext ? "M" : "", ""); op(); settle(); if (live) { if (a == 8 && w.st == PEND) { w.rep.push_back("AUTH24"); } else w.outcome(a, authed); } w.verify(false, "after the answer"); continue; }
        if (o == WAIT) { advance(2500, 500); w.verify(false, "later"); continue; }
        if (o == CLOSE) { if (closedself) prune(); if (batch) flush("before closing"); bool live = w.st != DEAD; closedself = true; A.c->fin = true; A.close(choose(2, "reset")); settle(); if (live) w.model(CLOSE, 0); w.verify(true, "after closing"); break; }
        if (closedself) break; int k = w.n + 1; std::string b = w.bytes(o); if (batch) { if (o == AUTHC || o == AUTHR || o == AUTHX) { if (w.st == PRE) prune(); } feed += b; todo.push_back({o, k}); continue; } A.raw(b); settle(); w.model(o, k); w.verify(false, OPN[o]);
    }
    if (batch) flush("at the end"); if (closedself && w.pending) { answer(w.w, AuthResult::success, "", ""); settle(); w.verify(true, "late answer"); } w.finish();
}
// listeners with their own policy, password files together with a plugin
static void policies()
{
    World w; install_plugin(); int g = choose(2, "anonymous"), l1 = choose(3, "listener 1"), l2 = choose(3, "listener 2"), ver = choose(3, "version") + 3, plug = choose(4, "plugin"), pwf = choose(2, "password file"); // plugin: none, accepts, refuses, throws
    auto lis = [](int port, int a) { return "listen {\n  protocol mqtt\n  inet_protocol ip4\n  port " + std::to_string(port) + "\n" + (a ? std::string("  allow_anonymous ") + (a == 1 ? "true" : "false") + "\n" : "") + "}\n"; };
    int asked = 0; plugin().login = [&](const std::string &, const std::string &, const std::string &, const std::weak_ptr<Client> &) { asked++; if (plug == 3) throw 1 ? std::runtime_error("x") : std::runtime_error("y"); return plug == 1 ? AuthResult::success : AuthResult::login_denied; };
    if (pwf) sim::fs::put("/mcfs/pw", "bob:notahash\nalice:$6$" "\n"); // malformed lines: nobody is listed
    REQUIRE(w.s.start(std::string(g ? "allow_anonymous true\n" : "allow_anonymous false\n") + "thread_count 2\n" + (plug ? PLUGIN_CONF : "") + (pwf ? "mosquitto_password_file /mcfs/pw\n" : "") + lis(1883, l1) + lis(1884, l2), false), "boot", "no");
    for (int port : {1883, 1884}) for (int user = 0; user < 3; user++) for (int pass = 0; pass < 2; pass++) for (int empty = 0; empty < 2; empty++) {
        if (pass && !user && ver < 5) continue; if (user == 2 && ver < 5) continue; Cl c(empty && ver > 3 ? "" : "C", ver); c.port = port; if (user == 1) c.o.user = "bob"; if (user == 2) c.o.props.push_back(ps(P_AUTHMETHOD, "nope")); if (pass) c.o.pass = "pw"; int l = port == 1883 ? l1 : l2; bool anon = l ? l == 1 : g; asked = 0;
        bool want, ask = false; if (user == 2) want = false; else if (!user && anon) want = true; else if (pwf && anon) want = true; else if (!plug) want = anon; else { ask = true; want = plug == 1; }
        bool ok = c.connect(); REQUIRE(ok == want, ok ? "accepted" : "refused", "anonymous %d, listener %d (%d), plugin %d, file %d: user %d password %d version %d is %s", g, port, l, plug, pwf, user, pass, ver, ok ? "accepted" : "refused"); REQUIRE((asked > 0) == ask, "asked", "plugin was asked %d times", asked);
        if (ok) { REQUIRE(c.ping(), "ping", "no"); c.disconnect(); settle(); count("accepted"); } else { settle(); REQUIRE(c.closed(), "open", "refused but open"); REQUIRE(c.connack.type == CONNACK && c.connack.rc > 0, "code", "no refusing CONNACK"); count("refused"); }
    }
}
// two connections with one client id wait for an answer; sessions change meanwhile
static void two()
{
    install_plugin(); std::map<std::string, std::weak_ptr<Client>> wait; plugin().login = [&](const std::string &, const std::string &, const std::string &p, const std::weak_ptr<Client> &c) { if (p.empty()) return AuthResult::success; wait[p] = c; return AuthResult::async; };
    Server s; REQUIRE(s.start(conf(), false), "boot", "no"); int ver = choose(2, "version") + 4; bool sess = choose(2, "session before"), clean1 = choose(2, "clean 1"), clean2 = choose(2, "clean 2"); auto mk = [&](const char *pass, bool clean) { Cl c("me", ver); c.o.user = "u"; if (*pass) c.o.pass = pass; c.o.clean = clean; if (ver == 5) c.o.props = {pn(P_SESSEXP, 1000)}; return c; };
    bool alive = false; if (sess) { Cl z = mk("", false); REQUIRE(z.connect(), "setup", "no"); z.subscribe({{"z", 1}}); z.disconnect(); settle(); alive = true; }
    Cl a = mk("1", clean1), b = mk("2", clean2); bool present = alive; auto expect_sub = [&](Cl &c, bool want) { Cl p("P", 4); p.o.user = "u"; p.connect(); p.publish("z", "x", 0); settle(); REQUIRE((c.publishes().size() == 1) == want, "state", "subscription %s", want ? "is gone" : "is still there"); p.disconnect(); settle(); };
    a.send_connect(); settle(); REQUIRE(wait.count("1") && a.all().empty(), "early", "answered"); bool second = choose(2, "second pending"); if (second) { b.send_connect(); settle(); REQUIRE(wait.count("2") && b.all().empty(), "early", "answered"); }
    int what = choose(4, "meanwhile"); if (what == 1) { Cl z = mk("", false); REQUIRE(z.connect(), "setup", "no"); REQUIRE(z.connack.sp == present, "sp", "meanwhile"); z.subscribe({{"z", 1}}); z.disconnect(); settle(); present = true; } else if (what == 2) { Cl z = mk("", true); if (ver == 5) z.o.props.clear(); REQUIRE(z.connect(), "setup", "no"); z.disconnect(); settle(); present = false; } else if (what == 3) advance(3000, 500);
    Cl *order[2] = {&a, &b}; const char *nm[2] = {"1", "2"}; int first = second ? choose(2, "first answered") : 0; bool subbed = present;
    for (int i = 0; i < (second ? 2 : 1); i++) { int x = i ? 1 - first : first; Cl &c = *order[x]; bool clean = x ? clean2 : clean1; bool deny = choose(2, "denied"); note("answer %s to %s", deny ? "no" : "yes", nm[x]); answer(wait[nm[x]], deny ? AuthResult::login_denied : AuthResult::success, "", ""); settle(); auto r = c.all();
        REQUIRE(!r.empty() && r[0].type == CONNACK, "no-connack", "no CONNACK first"); if (deny) { REQUIRE(r[0].rc != 0 && c.closed(), "denied", "rc %d", r[0].rc); if (i && !order[first]->closed()) REQUIRE(order[first]->ping(), "other", "gone"); continue; }
        REQUIRE(r[0].rc == 0, "accepted", "rc %d", r[0].rc); bool sp = present && !clean; REQUIRE(r[0].sp == sp, "sp", "session present %d, but the session %s", r[0].sp, sp ? "existed" : "didn't exist (any more)"); if (!sp) subbed = false; expect_sub(c, subbed && sp); if (i) REQUIRE(order[first]->closed(), "both", "both connections live"); present = ver == 5 || !clean; }
}
// many packets while waiting
static void many()
{
    install_plugin(); std::weak_ptr<Client> wc; plugin().login = [&](const std::string &, const std::string &u, const std::string &, const std::weak_ptr<Client> &c) { if (u != "att") return AuthResult::success; wc = c; return AuthResult::async; };
    Server s; REQUIRE(s.start(conf(), false), "boot", "no"); int ver = choose(2, "version") + 4; Cl W("W", 4); W.o.user = "w"; W.connect(); W.subscribe({{"t/#", 0}, {"aw", 0}}); Cl A("a", ver); A.o.user = "att"; A.o.will = Will{"aw", "will", 0, false, {}}; static const int N[] = {1, 2, 30, 60, 63, 64, 65, 66, 67, 150, 250}; int n = N[choose(11, "packets")], when = choose(3, "when"); bool sameread = choose(2, "one read"); static const char *WN[] = {"before CONNECT", "waiting", "waiting, denied"}; note("%d packets %s", n, WN[when]);
    A.open(); settle(); std::string b; auto pubs = [&] { for (int i = 0; i < n; i++) { std::string p = mq::publish(ver, "t/" + std::to_string(i), "x", i % 2, 1 + i); if (sameread) b += p; else { A.raw(p); settle(); } } }; if (when == 0) pubs(); b += mq::connect(A.o); if (!sameread) { A.raw(mq::connect(A.o)); settle(); b.clear(); } if (when) pubs(); if (!b.empty()) { A.raw(b); settle(); }
    REQUIRE(W.publishes().empty(), "effect", "published before being accepted"); bool gone = A.closed(); if (gone) REQUIRE(when == 0 ? n > 200 : n > 60, "closed", "closed after %d packets", n); A.pump(); if (wc.lock() || !gone) { answer(wc, when == 2 ? AuthResult::login_denied : AuthResult::success, "", ""); settle(); }
    auto g = W.publishes(); size_t want = gone || when != 1 ? 0 : n; REQUIRE(g.size() == want, "count", "%zu messages instead of %zu", g.size(), want); for (size_t i = 0; i < g.size(); i++) REQUIRE(g[i].topic == "t/" + std::to_string(i), "order", "%s at %zu", g[i].topic.c_str(), i); if (!gone) { auto r = A.all(); REQUIRE(!r.empty() && r[0].type == CONNACK && (r[0].rc == 0) == (when != 2), "connack", "first packet"); size_t acks = 0; for (auto &p : r) acks += p.type == PUBACK; REQUIRE(acks == want / 2, "acks", "%zu", acks); }
}
CHECK(P10, "")
{
    switch (choose(5, "part")) { case 0: sequence(false); break; case 1: sequence(true); break; case 2: policies(); break; case 3: two(); break; case 4: many(); break; }
}
