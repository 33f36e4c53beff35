// P30 Plugin decisions are honoured.
#include "mqtt.h"
#include "model.h"
#include "plugin.h"
#include <flashmq_plugin.h>
#include <flashmq_plugin_deprecated.h>
using namespace mc;
using namespace mq;
using AR = AuthResult;
static const AR ANS[] = {AR::success, AR::acl_denied, AR::login_denied, AR::error, AR::success_without_retained_delivery, AR::success_without_setting_retained, AR::success_but_drop_publish, AR::server_not_available, AR::auth_continue, AR::async, AR::auth_method_not_supported};
static const char *ANN[] = {"success", "acl_denied", "login_denied", "error", "success_without_retained_delivery", "success_without_setting_retained", "success_but_drop", "server_not_available", "auth_continue", "async", "auth_method_not_supported", "exception"};
static AR give(int a) { if (a == 11) throw std::runtime_error("plugin"); return ANS[a]; }
static std::string pjoin(const std::vector<std::string> &v) { return model::join(v, "/"); }
static Cl mk(const char *id, int ver, bool persist = false) { Cl c(id, ver); c.o.user = std::string("u") + id; c.o.clean = !persist; if (persist && ver == 5) c.o.props.push_back(pn(P_SESSEXP, 1000)); return c; }
static std::vector<AclQ> asked; static std::function<int(const AclQ &)> policy;
static void acl_hook() { asked.clear(); policy = nullptr; plugin().acl = [](const AclQ &q) { asked.push_back(q); return give(policy ? policy(q) : 0); }; }
static std::vector<AclQ> queries(AclAccess a, const std::string &id) { std::vector<AclQ> r; for (auto &q : asked) if (q.access == a && q.clientid == id) r.push_back(q); return r; }
static size_t n_of(const std::vector<Pkt> &v, const std::string &pl) { size_t n = 0; for (auto &p : v) n += p.payload == pl; return n; }
static void params(const AclQ &q, int api, const std::string &id, const std::string &topic, const std::string &payload, int qos, bool retain, bool props)
{
    REQUIRE(q.clientid == id && q.username == "u" + id, "params", "asked for %s/%s", q.clientid.c_str(), q.username.c_str()); REQUIRE(q.topic == topic && pjoin(q.subtopics) == topic, "params", "asked about topic '%s' [%s] instead of '%s'", q.topic.c_str(), pjoin(q.subtopics).c_str(), topic.c_str());
    REQUIRE(q.qos == qos && q.retain == retain, "params", "asked with QoS %d retain %d instead of %d %d", q.qos, q.retain, qos, retain); if (api >= 2) REQUIRE(q.payload == payload, "params", "asked with payload '%s'", q.payload.c_str());
    if (props) { REQUIRE(q.up == (UserProps{{"k", "v"}, {"k", "w"}}), "params", "user properties"); if (api >= 3) REQUIRE(q.corr.value_or("") == "cd" && q.resp.value_or("") == "rt", "params", "correlation data/response topic"); if (api >= 5) REQUIRE(q.ctype.value_or("") == "ct", "params", "content type"); } else REQUIRE(q.up.empty() && !q.corr && !q.resp && !q.ctype, "params", "properties out of nowhere");
}
static const Props PP = {ps(P_CTYPE, "ct"), ps(P_RESPTOPIC, "rt"), ps(P_CORR, "cd"), pu("k", "v"), pu("k", "w")};
static void boot(Server &s, const std::string &extra = "") { install_plugin(); REQUIRE(s.start(std::string(PLUGIN_CONF) + extra), "boot", "no"); }
static bool ok_write(int a) { return a == 0 || a == 5; }
// ---- answers to publishing, reading, subscribing, registering wills ----
static void writes()
{
    int api = 1 + choose(5, "api"), a = choose(12, "answer"), qos = choose(3, "qos"), ver = choose(3, "version") + 3; bool retain = choose(2, "retain"), props = ver == 5 && choose(2, "properties"), alias = ver == 5 && props; plugin().version = api; acl_hook(); Server s; boot(s);
    Cl P = mk("P", ver), S = mk("S", 5), O = mk("O", 4, true), T = mk("T", 3); for (auto c : {&P, &S, &O, &T}) REQUIRE(c->connect(), "setup", "no"); S.subscribe({{"a/#", 2, false, true}}); T.subscribe({{"a/+", 1}}); O.subscribe({{"a/b", 2}}); O.disconnect(); settle(); asked.clear();
    policy = [&](const AclQ &q) { return q.access == AclAccess::write && q.clientid == "P" ? a : 0; }; Props p = props ? PP : Props(); if (alias) p.push_back(pn(P_ALIAS, 1)); note("write of QoS %d: %s", qos, ANN[a]); P.pub("a/b", "m1", qos, retain, p); settle();
    auto q = queries(AclAccess::write, "P"); REQUIRE(q.size() == 1, "asked", "asked %zu times about the publish", q.size()); params(q[0], api, "P", "a/b", "m1", qos, retain, props);
    auto r = P.all(); if (qos) { REQUIRE(r.size() == 1 && r[0].type == (qos == 1 ? PUBACK : PUBREC), "ack", "%zu packets", r.size()); bool okay = ok_write(a) || a == 6; int rc = ver < 5 ? -1 : r[0].rc; if (ver == 5) REQUIRE(okay ? rc <= 0 || rc == 0x10 : rc == 0x87, "code", "%s answered with %d", ANN[a], rc); if (qos == 2 && (okay || ver < 5)) { P.raw(mq::ack(ver, PUBREL, r[0].id)); settle(); P.all(); } } else REQUIRE(r.empty() && !P.closed(), "reply", "to QoS 0");
    bool del = ok_write(a); size_t g = n_of(S.publishes(), "m1"), g2 = n_of(T.publishes(), "m1"); REQUIRE(g == del && g2 == del, g > del || g2 > del ? "allowed" : "denied", "%s: delivered %zu and %zu times", ANN[a], g, g2);
    size_t rd = queries(AclAccess::read, "S").size(); REQUIRE(rd == del, "asked-read", "asked %zu times about reading", rd); policy = [&](const AclQ &q) { return q.access == AclAccess::write && q.clientid == "P" && a == 5 ? 5 : 0; }; O.c.reset(); REQUIRE(O.connect(), "setup", "no"); size_t go = n_of(O.publishes(), "m1"); REQUIRE(go == (del && qos ? 1u : 0u), "queued", "%s: queued message delivered %zu times", ANN[a], go);
    policy = nullptr; Cl L = mk("L", 5); L.connect(); L.subscribe({{"a/#", 2}}); size_t gl = n_of(L.publishes(), "m1"); REQUIRE(gl == (retain && a == 0 ? 1u : 0u), "retained", "%s: retained message delivered %zu times", ANN[a], gl);
    if (alias && P.c && !P.closed()) { asked.clear(); Props p2 = {pn(P_ALIAS, 1)}; P.pub("", "m2", 0, false, p2); settle(); auto q2 = queries(AclAccess::write, "P"); REQUIRE(q2.size() == 1 && q2[0].topic == "a/b", "alias", "asked about '%s'", q2.empty() ? "nothing" : q2[0].topic.c_str()); REQUIRE(n_of(S.publishes(), "m2") == 1, "alias", "not delivered"); } count("writes");
}
static void reads()
{
    int api = 1 + choose(5, "api"), a = choose(12, "answer"), qos = choose(3, "qos"), ver = choose(3, "version") + 3; bool retain = choose(2, "retain"), props = choose(2, "properties"), shared = ver > 3 && choose(2, "shared"); if (!thorough() && (a + qos + ver + props + retain * 2 + shared + api) % 4) prune(); plugin().version = api; acl_hook(); Server s; boot(s);
    Cl P = mk("P", 5), S = mk("S", ver, true), T = mk("T", 4); for (auto c : {&P, &S, &T}) REQUIRE(c->connect(), "setup", "no"); S.subscribe({{shared ? "$share/g/a/#" : "a/#", 2}}); T.subscribe({{"a/b", 2}}); bool offline = choose(2, "offline"); if (offline) { S.disconnect(); settle(); } asked.clear(); note("read at QoS %d: %s", qos, ANN[a]); bool late = choose(2, "denied later");
    policy = [&](const AclQ &q) { return q.access == AclAccess::read && q.clientid == "S" && !late ? a : 0; }; P.publish("a/b", "m1", qos, retain, props ? PP : Props()); auto q = queries(AclAccess::read, "S"); if (!(offline && shared)) REQUIRE(q.size() == 1, "asked", "asked %zu times", q.size()); if (!q.empty()) params(q[0], api, "S", "a/b", "m1", qos, false, props);
    if (late) policy = [&](const AclQ &q) { return q.access == AclAccess::read && q.clientid == "S" ? a : 0; }; if (offline) { S.c.reset(); REQUIRE(S.connect(), "setup", "no"); } bool del = (a == 0 || late) && (!offline || qos); size_t g = n_of(S.publishes(), "m1"); REQUIRE(g == del, g ? "allowed" : "denied", "%s: delivered %zu times", ANN[a], g); REQUIRE(n_of(T.publishes(), "m1") == 1, "others", "the other subscriber's message");
    asked.clear(); S.subscribe({{"a/+", 1}}); g = n_of(S.publishes(), "m1"); REQUIRE(g == (retain && a == 0 ? 1u : 0u), "retained", "%s: retained message delivered %zu times", ANN[a], g); q = queries(AclAccess::read, "S"); REQUIRE(q.size() == retain, "asked", "asked %zu times for the retained message", q.size()); if (retain) params(q[0], api, "S", "a/b", "m1", std::min(qos, 1), true, props); REQUIRE(S.ping(), "closed", "no"); count("reads");
}
static void subs()
{
    int api = 1 + choose(5, "api"), a = choose(12, "answer"), b = choose(4, "second answer"), ver = choose(3, "version") + 3; static const int B[] = {0, 1, 4, 6}; b = B[b]; static const char *F[][2] = {{"a/b", "a/b"}, {"a/#", "a/#"}, {"$share/g/a/+", "a/+"}, {"$share/g//a", "/a"}, {"/a/", "/a/"}, {"$share/g/+/b", "+/b"}, {"$share/g/a//b", "a//b"}}; int f = choose(7, "filter"), qos = choose(3, "qos"); bool props = ver == 5 && choose(2, "properties"); if (!thorough() && (a + b * 2 + ver * 3 + qos + f * 2 + props + api) % 5) prune(); plugin().version = api; acl_hook(); Server s; boot(s);
    Cl P = mk("P", 4), S = mk("S", ver); for (auto c : {&P, &S}) REQUIRE(c->connect(), "setup", "no"); std::string topic = f == 3 ? "/a" : f == 4 ? "/a/" : f == 6 ? "a//b" : "a/b"; P.publish(topic, "r", 1, true); P.publish("z", "rz", 1, true); asked.clear(); note("subscribe %s: %s, z: %s", F[f][0], ANN[a], ANN[b]);
    policy = [&](const AclQ &q) { return q.access == AclAccess::subscribe ? (q.topic == "z" ? b : a) : 0; }; std::vector<int> codes; REQUIRE(S.subscribe({{F[f][0], qos}, {"z", 1}}, props ? Props{pu("k", "v"), pu("k", "w")} : Props(), &codes), "suback", "no SUBACK");
    auto q = queries(AclAccess::subscribe, "S"); REQUIRE(q.size() == 2, "asked", "asked %zu times", q.size()); REQUIRE(q[0].topic == F[f][1] && pjoin(q[0].subtopics) == F[f][1], "params", "asked about '%s' [%s] for %s", q[0].topic.c_str(), pjoin(q[0].subtopics).c_str(), F[f][0]); REQUIRE(q[0].username == "uS" && q[0].qos == qos && q[0].up == (props ? UserProps{{"k", "v"}, {"k", "w"}} : UserProps()), "params", "user, QoS or properties"); if (api >= 4) REQUIRE(q[0].share == (F[f][0][0] == '$' ? "g" : ""), "params", "share name %s", q[0].share.c_str());
    auto want = [&](int x, int qs) { return x == 0 || x == 4 || x == 6 ? qs : ver == 3 ? qs : ver == 4 ? -80 : 0x87; }; REQUIRE(codes.size() == 2, "codes", "%zu", codes.size()); for (int i = 0; i < 2; i++) { int w = want(i ? b : a, i ? 1 : qos); REQUIRE(w == -80 ? codes[i] >= 0x80 : codes[i] == w, "code", "%s: code %d", ANN[i ? b : a], codes[i]); }
    auto got = S.publishes(); bool sh = F[f][0][0] == '$'; REQUIRE(n_of(got, "r") == (a == 0 && !sh), "retained", "%s: retained %zu", ANN[a], n_of(got, "r")); REQUIRE(n_of(got, "rz") == (b == 0), "retained", "%s: retained %zu", ANN[b], n_of(got, "rz")); P.publish(topic, "m", 1); P.publish("z", "mz", 1); got = S.publishes(); REQUIRE(n_of(got, "m") == (a == 0 || a == 4), "effect", "%s: delivered %zu", ANN[a], n_of(got, "m")); REQUIRE(n_of(got, "mz") == (b == 0 || b == 4), "effect", "%s: delivered %zu", ANN[b], n_of(got, "mz"));
    // the unsubscribe event
    int ev = 0; std::string et, es; std::vector<std::string> est; plugin().unsubscribe = [&](const std::string &id, const std::string &u, const std::string &t, const std::vector<std::string> &st, const std::string &shr) { if (id == "S" && u == "uS") ev++; et = t; es = shr; est = st; }; REQUIRE(S.unsubscribe({F[f][0]}), "unsuback", "no"); if (api >= 4) REQUIRE(ev == 1 && et == F[f][1] && pjoin(est) == F[f][1] && es == (sh ? "g" : ""), "unsubscribe-event", "%d times, '%s' [%s] share %s", ev, et.c_str(), pjoin(est).c_str(), es.c_str()); P.publish(topic, "m2", 1); REQUIRE(n_of(S.publishes(), "m2") == 0, "unsubscribed", "still delivered"); count("subscribes");
}
static void wills()
{
    int api = 1 + choose(5, "api"), a = choose(12, "answer"), when = choose(2, "at publishing"), qos = choose(2, "qos") * 2, ver = choose(3, "version") + 3, delay = ver == 5 ? choose(3, "delay") : 0; bool retain = choose(2, "retain"), props = ver == 5 && choose(2, "properties"); if (!thorough() && (api + a + qos + ver + delay + retain + props) % 3) prune(); plugin().version = api; acl_hook(); Server s; boot(s); Cl S = mk("S", 4), P = mk("P", ver, true); REQUIRE(S.connect(), "setup", "no"); S.subscribe({{"#", 2}}); P.o.will = Will{"w/t", "will", qos, retain, props ? PP : Props()}; if (delay) P.o.will->props.push_back(pn(P_WILLDELAY, 10 * delay));
    policy = [&](const AclQ &q) { return q.access == (when ? AclAccess::write : AclAccess::register_will) && q.clientid == "P" ? a : 0; }; note("will %s: %s", when ? "publish" : "register", ANN[a]); bool ext = choose(2, "asynchronous login"); std::weak_ptr<Client> wc; if (ext) plugin().login = [&](const std::string &id, const std::string &, const std::string &, const std::weak_ptr<Client> &c) { if (id != "P") return AR::success; wc = c; return AR::async; };
    bool ok = P.connect(); if (ext) { REQUIRE(!ok, "early", "accepted"); flashmq_continue_async_authentication_v4(wc, AR::success, "", "", 0); settle(); ok = P.pop(CONNACK).has_value(); } REQUIRE(ok, "connect", "refused"); auto q = queries(AclAccess::register_will, "P"); REQUIRE(q.size() == 1, "asked", "asked %zu times about the will", q.size()); params(q[0], api, "P", "w/t", "will", qos, retain, props);
    REQUIRE(queries(AclAccess::write, "P").empty(), "asked", "write at connecting"); P.close(); settle(); advance(30000, 1000); bool del = when ? ok_write(a) : a == 0; auto g = S.publishes(); REQUIRE(n_of(g, "will") == del, del ? "denied" : "allowed", "%s: will published %zu times", ANN[a], n_of(g, "will")); if (!when && a) REQUIRE(queries(AclAccess::write, "P").empty(), "asked", "about publishing a refused will"); else { q = queries(AclAccess::write, "P"); REQUIRE(!q.empty(), "asked", "not asked"); params(q[0], api, "P", "w/t", "will", qos, retain, props); }
    policy = nullptr; Cl L = mk("L", 4); L.connect(); L.subscribe({{"w/#", 1}}); REQUIRE(n_of(L.publishes(), "will") == (retain && del && a == 0), "retained", "%s", ANN[a]); count("wills");
}
// ---- changed messages and subscriptions ----
static void alters()
{
    int api = 1 + choose(5, "api"); plugin().version = api; int what = choose(64, "changes"), qos = choose(3, "qos"), nq = choose(3, "new qos"), ver = choose(3, "version") + 3; bool retain = choose(2, "retain"), big = choose(2, "topic longer"); bool ct = what & 1, cq = what & 2, cr = what & 4, cu = what & 8, cc = what & 16, cx = what & 32; if (!cq && nq) prune(); if (!ct && big) prune(); if (!thorough() && (what * 7 + qos + nq * 3 + ver + retain) % 4) prune(); if ((cc && api < 3) || (cx && api < 5)) prune(); if (cq && nq == qos) prune(); // quick: a covering part
    std::string nt = big ? "new/topic/that/is/longer" : "n"; acl_hook(); Server s; boot(s); Cl P = mk("P", ver), S = mk("S", 5), T = mk("T", 4), O = mk("O", 5, true); for (auto c : {&P, &S, &T, &O}) REQUIRE(c->connect(), "setup", "no"); S.subscribe({{"#", 2, false, true}}); T.subscribe({{"#", 2}}); O.subscribe({{"#", 2, false, true}}); O.disconnect(); settle(); int calls = 0; PubQ seen{}; std::string seent; std::string seenp; int sq = -1; bool sr = false;
    plugin().alterpub = [&](PubQ &q) { if (q.clientid != "P") return false; calls++; seent = *q.topic; seenp = q.payload; sq = *q.qos; sr = *q.retain; if (ct) *q.topic = nt; if (cq) *q.qos = nq; if (cr) *q.retain = !*q.retain; if (cu && q.up) { q.up->clear(); q.up->emplace_back("new", "prop"); } if (cc) { *q.corr = "nc"; *q.resp = std::nullopt; } if (cx) *q.ctype = "nx"; return what != 0 && (what != 4 || choose(2, "returns true")); };
    bool props = ver == 5; if (cu && !props) prune(); Props pp = props ? PP : Props(); if (props && ct) pp.push_back(pn(P_ALIAS, 3)); note("alter %d", what); P.pub("o/t", "m1", qos, retain, pp); settle(); REQUIRE(calls == 1, "asked", "%d times", calls); REQUIRE(seent == "o/t" && sq == qos && sr == retain && (api < 2 || seenp == "m1"), "params", "%s %d %d", seent.c_str(), sq, sr);
    std::string et = ct ? nt : "o/t"; int eq = cq ? nq : qos; bool er = retain != cr; auto w = queries(AclAccess::write, "P"); REQUIRE(w.size() == 1 && w[0].topic == et && w[0].qos == eq && w[0].retain == er && pjoin(w[0].subtopics) == et, "acl", "%zu write checks about %s [%s] qos %d retain %d", w.size(), w.empty() ? "nothing" : w[0].topic.c_str(), w.empty() ? "" : pjoin(w[0].subtopics).c_str(), w.empty() ? 0 : w[0].qos, w.empty() ? 0 : w[0].retain);
    auto r = P.all(); REQUIRE(r.size() == (qos ? 1u : 0u) && (!qos || r[0].type == (qos == 1 ? PUBACK : PUBREC)), "ack", "the acknowledgement for QoS %d: %zu", qos, r.size()); if (qos == 2) { P.raw(mq::publish(ver, "o/t", "m1", 2, r[0].id, retain, true, pp)); settle(); REQUIRE(calls == 1, "duplicate", "asked again"); P.all(); P.raw(mq::ack(ver, PUBREL, r[0].id)); settle(); auto c = P.all(); REQUIRE(c.size() == 1 && c[0].type == PUBCOMP, "ack", "no PUBCOMP"); }
    O.c.reset(); REQUIRE(O.connect(), "setup", "no"); Cl L = mk("L", 5); L.connect(); L.subscribe({{"#", 2}}); int i = 0;
    for (auto c : {&S, &T, &O, &L}) { i++; auto g = c->publishes(); bool want = i == 3 ? eq > 0 : i == 4 ? er : true; REQUIRE(g.size() == want, "delivery", "subscriber %d got %zu", i, g.size()); if (!want) continue; auto &m = g[0]; REQUIRE(m.topic == et && m.payload == "m1" && m.qos == eq, "altered", "subscriber %d got %s", i, m.txt().c_str()); REQUIRE(m.retain == (i == 2 ? false : er), "retain", "subscriber %d: retain %d", i, m.retain); if (c->v5()) {
        std::vector<std::pair<std::string, std::string>> up; std::string co, re, cty; for (auto &p : m.props) { if (p.id == P_USER) up.emplace_back(p.s, p.s2); if (p.id == P_CORR) co = p.s; if (p.id == P_RESPTOPIC) re = p.s; if (p.id == P_CTYPE) cty = p.s; } decltype(up) eu; if (props) eu = {{"k", "v"}, {"k", "w"}}; if (cu && (props)) eu = {{"new", "prop"}}; REQUIRE(up == eu, "properties", "subscriber %d: %zu user properties", i, up.size()); REQUIRE(co == (cc ? "nc" : props ? "cd" : "") && re == (cc ? "" : props ? "rt" : "") && cty == (cx ? "nx" : props ? "ct" : ""), "properties", "subscriber %d: %s %s %s", i, co.c_str(), re.c_str(), cty.c_str()); } }
    if (props && ct) { P.pub("", "m2", 0, false, {pn(P_ALIAS, 3)}); settle(); REQUIRE(seent == "o/t", "alias", "the plugin sees '%s'", seent.c_str()); auto g = S.publishes(); REQUIRE(g.size() == 1 && g[0].topic == et, "alias", "delivered wrongly"); } count("alterations");
}
static void altersubs()
{
    static const char *FROM[] = {"a/b", "#", "$share/g/a/b", "$share/g/+/b", "x/y/z"}, *TO[] = {"c/d", "c/#", "$share/h/c/d", "c/#/d", "", "$share/h/", "c/+/"}; int f = choose(5, "from"), t = choose(7, "to"), q = choose(3, "qos"), nq = choose(4, "new qos"), ver = choose(3, "version") + 3; bool say = choose(2, "alter"); if (!say && (t || nq)) prune(); int api = choose(5, "api"); if (!thorough() && (f + t + q * 2 + nq + ver * 2 + api) % 5) prune(); plugin().version = 1 + api; acl_hook(); Server s; boot(s); Cl P = mk("P", 4), S = mk("S", ver), S2 = mk("S2", 4); for (auto c : {&P, &S, &S2}) REQUIRE(c->connect(), "setup", "no"); P.publish("c/d", "r", 0, true); P.publish("a/b", "ro", 0, true); std::string seen, seenst; int sq = -1; S2.subscribe({{"$share/h/c/d", 0}});
    plugin().altersub = [&](const std::string &id, std::string &topic, const std::vector<std::string> &st, uint8_t &qs) { if (id != "S") return false; seen = topic; seenst = pjoin(st); sq = qs; if (!say) return false; topic = TO[t]; qs = nq; return true; }; note("%s -> %s", FROM[f], say ? TO[t] : "itself"); std::vector<int> codes; S.subscribe({{FROM[f], q}}, {}, &codes); REQUIRE(seen == FROM[f] && seenst == FROM[f] && sq == q, "params", "%s [%s] %d", seen.c_str(), seenst.c_str(), sq); bool bad = say && (t == 3 || t == 4 || t == 5 || nq > 2); if (say && nq > 2 && !bad) bad = true;
    if (bad) { REQUIRE(S.closed() && codes.empty(), "invalid", "an invalid changed subscription was accepted"); P.publish("c/d", "m", 0); return; } REQUIRE(codes.size() == 1 && codes[0] == (say ? nq : q), "code", "%zu codes, %d", codes.size(), codes.empty() ? -1 : codes[0]); std::string eff = say ? TO[t] : FROM[f]; bool shared = eff[0] == '$'; if (shared) eff = eff.substr(9); auto g = S.publishes(); REQUIRE(n_of(g, "r") == (!shared && model::matches(eff, "c/d")) && n_of(g, "ro") == (!shared && model::matches(eff, "a/b")), "retained", "%zu", g.size());
    P.publish("c/d", "m1", 0); P.publish("c/d", "m2", 0); P.publish("a/b", "m3", 0); g = S.publishes(); bool split = say && t == 2; size_t c = n_of(g, "m1") + n_of(g, "m2"), c2 = 0; for (auto &p : S2.publishes()) c2 += p.payload == "m1" || p.payload == "m2"; REQUIRE(c == (split ? 1u : model::matches(eff, "c/d") ? 2u : 0u) && c2 == (split ? 1u : 2u), "delivery", "%zu and %zu", c, c2); REQUIRE(n_of(g, "m3") == model::matches(eff, "a/b"), "original", "%zu", n_of(g, "m3")); REQUIRE(S.unsubscribe({say ? TO[t] : FROM[f]}), "unsuback", "no"); P.publish("c/d", "m4", 0); REQUIRE(n_of(S.publishes(), "m4") == 0, "unsubscribed", "still delivered"); count("changed subscriptions");
}
// ---- delayed tasks: every order of adding, removing, becoming due, also from tasks ----
struct Task { uint32_t id; double due; bool removed = false; int ran = 0; int adds = -1, removes = -1; bool throws = false; };
static void tasks()
{
    plugin().version = 5; Server s; boot(s); Cl P = mk("P", 4); REQUIRE(P.connect(), "setup", "no"); std::vector<Task> ts; static const int D[] = {0, 1, 50, 300, 4000}; std::function<void(int)> run; auto now = [] { return sim::now_ns() / 1e6; };
    std::function<void()> todo; plugin().alterpub = [&](PubQ &) { if (todo) { auto f = std::move(todo); todo = nullptr; f(); } return false; }; auto inthread = [&](std::function<void()> f) { todo = f; P.pub("x", "y"); settle(); REQUIRE(!todo, "hook", "not called"); };
    std::function<void(int)> add = [&](int delay) { size_t i = ts.size(); ts.push_back({}); ts[i].due = now() + delay; ts[i].id = flashmq_add_task([&, i] { Task &t = ts[i]; REQUIRE(!t.removed, "removed", "task %zu ran after it was removed", i); t.ran++; REQUIRE(t.ran == 1, "twice", "task %zu ran %d times", i, t.ran); REQUIRE(now() >= t.due - 1, "early", "task %zu ran %.0f ms early", i, t.due - now()); REQUIRE(now() <= t.due + 300, "late", "task %zu ran %.0f ms late", i, now() - t.due); count("tasks run"); int ad = t.adds, rm = t.removes; bool th = t.throws; if (ad >= 0) add(ad); if (rm >= 0 && (size_t)rm < ts.size()) { flashmq_remove_task(ts[rm].id); ts[rm].removed = true; } if (th) throw std::runtime_error("task"); }, delay); for (size_t k = 0; k < i; k++) REQUIRE(ts[k].id != ts[i].id || ts[k].ran || ts[k].removed, "id", "id of task %zu used again", k); };
    int depth = param("tdepth", thorough() ? 4 : 3); auto verify = [&] { for (size_t i = 0; i < ts.size(); i++) if (!ts[i].removed) { if (now() > ts[i].due + 300) REQUIRE(ts[i].ran == 1, "lost", "task %zu didn't run", i); } };
    for (int i = 0; i < depth; i++) { int o = choose(i == 0 ? 3 : 5, "op"); switch (o) {
        case 0: { int d = D[choose(4, "delay")]; note("add %d", d); inthread([&] { add(d); }); break; }
        case 1: { static const int PD[][2] = {{50, 50}, {50, 300}, {300, 50}, {0, 0}}; int k = choose(thorough() || !i ? 4 : 1, "pair"); int r = choose(5, "removes"); note("two tasks %d %d, %d", PD[k][0], PD[k][1], r); inthread([&] { size_t a = ts.size(); add(PD[k][0]); add(PD[k][1]); if (r == 1) ts[a].removes = a + 1; if (r == 2) ts[a + 1].removes = a; if (r == 3) ts[a].throws = true; if (r == 4) ts[a].removes = a; }); break; }
        case 2: { int w = thorough() ? 3 : 2, d = D[choose(w, "delay")], n = D[choose(w, "next")]; note("task %d adding %d", d, n); inthread([&] { size_t a = ts.size(); add(d); ts[a].adds = n; }); break; }
        case 3: { static const int W[] = {20, 100, 1000}; int w = W[choose(3, "wait")]; note("wait %d", w); advance(w, 1); verify(); break; }
        case 4: { size_t k = choose(std::min<int>(ts.size() + 1, 4), "which"); note("remove %zu", k); inthread([&] { if (k >= ts.size()) { flashmq_remove_task(0); flashmq_remove_task(4000000000u); return; } flashmq_remove_task(ts[k].id); if (!ts[k].ran) ts[k].removed = true; }); break; }
    } } advance(1500, 5); verify(); REQUIRE(P.ping(), "closed", "no");
}
// ---- what plugins can do ----
static void calls()
{
    plugin().version = 5; acl_hook(); Server s; boot(s); int ver = choose(2, "version") + 4, op_ = choose(8, "call"); bool inside = choose(2, "from a worker"), online = choose(2, "online"); Cl P = mk("P", 4), S = mk("S", ver, true), W = mk("W", 5); for (auto c : {&P, &S, &W}) REQUIRE(c->connect(), "setup", "no"); S.subscribe({{"s/#", 2, false, ver == 5}}); W.subscribe({{"#", 2, false, true}}); std::function<void()> todo; plugin().alterpub = [&](PubQ &) { if (todo) { auto f = std::move(todo); todo = nullptr; f(); } return false; };
    std::weak_ptr<Session> ses, none; flashmq_get_session_pointer("S", "uS", ses); REQUIRE(!ses.expired(), "session", "no pointer"); std::weak_ptr<Session> wrong; flashmq_get_session_pointer("S", "other", wrong); flashmq_get_session_pointer("nobody", "", wrong); REQUIRE(wrong.expired(), "session", "pointer for a wrong user"); if (!online) { S.disconnect(); settle(); } std::weak_ptr<Client> cp; flashmq_get_client_pointer(ses, cp); REQUIRE(cp.expired() == !online, "client", "pointer"); if (online) { std::string txt; sockaddr_storage sa{}; socklen_t sl = sizeof sa; flashmq_get_client_address_v4(cp, &txt, (sockaddr *)&sa, &sl); REQUIRE(txt.find("127.0.0.1") != std::string::npos && sa.ss_family == AF_INET, "address", "%s", txt.c_str()); }
    auto doit = [&](std::function<void()> f) { if (inside) { todo = f; P.pub("go", "x"); settle(); REQUIRE(!todo, "hook", "no"); } else f(); settle(); }; note("call %d", op_);
    switch (op_) {
    case 0: { int q = choose(3, "qos"); bool r = choose(2, "retain"), pr = choose(2, "props"), ex = choose(2, "expiry"); UserProps up = {{"k", "v"}}; std::string rt = "rt", cd = "cd", ct = "ct"; doit([&] { flashmq_publish_message("s/1", q, r, "pub", ex ? 100 : 0, pr ? &up : nullptr, pr ? &rt : nullptr, pr ? &cd : nullptr, pr ? &ct : nullptr); }); auto g = W.publishes(); REQUIRE(n_of(g, "pub") == 1, "publish", "%zu", n_of(g, "pub")); for (auto &m : g) if (m.payload == "pub") { REQUIRE(m.topic == "s/1" && m.qos == q && m.retain == r, "publish", "%s", m.txt().c_str()); auto x = find(m.props, P_EXPIRY); REQUIRE(!!x == ex && (!ex || (x->num <= 100 && x->num >= 99)), "expiry", "no"); REQUIRE(!!find(m.props, P_USER) == pr && !!find(m.props, P_CORR) == pr && !!find(m.props, P_CTYPE) == pr && !!find(m.props, P_RESPTOPIC) == pr, "properties", "%s", m.txt().c_str()); }
        if (!online) { S.c.reset(); REQUIRE(S.connect(), "setup", "no"); } REQUIRE(n_of(S.publishes(), "pub") == (online || q), "publish", "to the subscriber"); Cl L = mk("L", 4); L.connect(); L.subscribe({{"s/#", 0}}); REQUIRE(n_of(L.publishes(), "pub") == r, "retained", "no"); break; }
    case 1: case 2: { bool also = choose(2, "also session"); static const ServerDisconnectReasons R[] = {ServerDisconnectReasons::NormalDisconnect, ServerDisconnectReasons::NotAuthorized, ServerDisconnectReasons::MessageRateTooHigh}; int r = choose(3, "reason"); doit([&] { if (op_ == 1) flashmq_plugin_remove_client("S", also, R[r]); else flashmq_plugin_remove_client_v4(ses, also, R[r]); }); advance(1000, 100); if (online) { REQUIRE(S.closed(), "remove", "still connected"); auto a = S.all(); if (ver == 5) REQUIRE(!a.empty() && a.back().type == DISCONNECT && a.back().rc == (int)R[r], "reason", "%zu packets, rc %d", a.size(), a.empty() ? -1 : a.back().rc); } P.publish("s/9", "later", 1); S.c.reset(); REQUIRE(S.connect(), "setup", "no"); bool gone = also && (online || op_ == 1); REQUIRE(S.connack.sp == !gone, "session", "session present %d", S.connack.sp); REQUIRE(n_of(S.publishes(), "later") == !gone, "session", "subscription"); REQUIRE(W.ping(), "others", "no"); break; }
    case 3: { int q = choose(3, "qos"); bool sh = choose(2, "shared"), rap = choose(2, "rap"); bool ok = false; doit([&] { ok = flashmq_plugin_add_subscription(ses, sh ? "$share/g/n/+" : "n/+", q, false, rap, 7); }); REQUIRE(ok, "add", "failed"); P.publish("n/1", "m", 2, true); if (!online) { S.c.reset(); REQUIRE(S.connect(), "setup", "no"); } auto g = S.publishes(); bool want = online || q; REQUIRE(n_of(g, "m") == want, "add", "%zu", n_of(g, "m")); for (auto &m : g) if (m.payload == "m") { REQUIRE(m.qos == q && m.retain == rap, "add", "%s", m.txt().c_str()); if (ver == 5) { auto x = find(m.props, P_SUBID); REQUIRE(x && x->num == 7, "identifier", "%s", m.txt().c_str()); } } break; }
    case 4: case 5: { bool sh = choose(2, "shared"); if (sh) REQUIRE(flashmq_plugin_add_subscription(ses, "$share/g/t", 1, false, false, 0), "add", "no"); doit([&] { if (op_ == 4) flashmq_plugin_remove_subscription("S", sh ? "$share/g/t" : "s/#"); else flashmq_plugin_remove_subscription_v4(ses, sh ? "$share/g/t" : "s/#"); }); P.publish("s/1", "m", 1); P.publish("t", "mt", 1); if (!online) { S.c.reset(); REQUIRE(S.connect(), "setup", "no"); } auto g = S.publishes(); REQUIRE(n_of(g, "m") == sh && n_of(g, "mt") == 0, "remove", "%zu %zu", n_of(g, "m"), n_of(g, "mt")); break; }
    case 6: { static const char *BADF[] = {"a/#/b", "a+", "\xff", ""}; int k = choose(4, "filter"), w = choose(3, "which"); bool threw = false; doit([&] { try { if (w == 0) flashmq_plugin_add_subscription(ses, BADF[k], 0, false, false, 0); else if (w == 1) flashmq_plugin_remove_subscription("S", BADF[k]); else flashmq_plugin_remove_subscription_v4(ses, BADF[k]); } catch (std::exception &) { threw = true; } }); if (k != 3) REQUIRE(threw, "invalid", "accepted"); flashmq_plugin_remove_subscription("nobody", "s/#"); flashmq_plugin_remove_subscription_v4(none, "s/#"); REQUIRE(!flashmq_plugin_add_subscription(none, "s/#", 0, false, false, 0), "none", "accepted"); P.publish("s/1", "m", 1); if (!online) { S.c.reset(); S.connect(); } REQUIRE(n_of(S.publishes(), "m") == 1, "kept", "no"); break; }
    case 7: { // instead of what the client does: drop its message and publish another, subscribe to something else
        policy = [&](const AclQ &q) { if (q.clientid == "P" && q.access == AclAccess::write) { flashmq_publish_message("s/inst", 1, false, "instead"); return 6; } return 0; }; P.publish("s/org", "org", inside); policy = nullptr; auto g = W.publishes(); REQUIRE(n_of(g, "org") == 0 && n_of(g, "instead") == 1, "instead", "%zu %zu", n_of(g, "org"), n_of(g, "instead")); break; }
    } REQUIRE(W.ping() && P.ping(), "others", "no"); count("calls");
}
// ---- events ----
static void events()
{
    plugin().version = 1 + choose(5, "api"); Server s; std::map<std::string, int> ev, disc; plugin().alloc = [&] { ev["alloc"]++; }; plugin().dealloc = [&] { ev["dealloc"]++; }; plugin().main_init = [&] { ev["main_init"]++; REQUIRE(!ev["init"], "order", "main_init after init"); }; plugin().main_deinit = [&] { ev["main_deinit"]++; }; plugin().init = [&](bool r) { ev[r ? "reinit" : "init"]++; }; plugin().deinit = [&](bool r) { ev[r ? "redeinit" : "deinit"]++; }; plugin().periodic = [&] { ev["periodic"]++; }; plugin().disconnected = [&](const std::string &id) { disc[id]++; };
    int answer = 0; plugin().login = [&](const std::string &id, const std::string &, const std::string &, const std::weak_ptr<Client> &) { return id[0] == 'X' ? give(answer) : AR::success; }; boot(s, "plugin_timer_period 7\nallow_anonymous false\n"); REQUIRE(ev["init"] == 2 && ev["alloc"] == 2 && ev["main_init"] == 1, "init", "%d %d %d", ev["init"], ev["alloc"], ev["main_init"]); int ver = choose(3, "version") + 3; std::map<std::string, int> want; std::vector<std::unique_ptr<Cl>> cs; int n = 0;
    int ends = param("ends", thorough() ? 3 : 2); for (int i = 0; i < ends; i++) { int how = choose(9, "end"); std::string id = (how == 8 ? "X" : "C") + std::to_string(n++); cs.push_back(std::make_unique<Cl>(mk(id.c_str(), ver))); Cl &c = *cs.back(); note("%s ends by %d", id.c_str(), how); if (how == 8) { answer = 1 + choose(3, "refusal"); REQUIRE(!c.connect(), "accepted", "no"); want[id] = 0; advance(1000, 100); continue; } if (how == 4) c.o.keepalive = 5; REQUIRE(c.connect(), "setup", "no"); want[id] = 1;
        switch (how) { case 0: c.disconnect(); break; case 1: c.close(); break; case 2: c.close(true); break; case 3: c.raw(std::string("\x00\x00", 2)); break; case 4: advance(60000, 1000); break; case 5: { Cl d = mk(id.c_str(), ver); REQUIRE(d.connect(), "setup", "no"); settle(); REQUIRE(disc[id] == 1, "event", "takeover: %d", disc[id]); d.disconnect(); want[id] = 2; break; } case 6: c.sub({{"a", 0}}); settle(); c.close(); break; case 7: c.raw(mq::pingreq() + mq::disconnect(ver)); break; } settle(); advance(1000, 100); REQUIRE(disc == want || [&] { for (auto &w : want) if (disc[w.first] != w.second) return false; return true; }(), "event", "%s: %d disconnect events instead of %d", id.c_str(), disc[id], want[id]); }
    int p0 = ev["periodic"]; advance(70000, 500); int pn_ = ev["periodic"] - p0; REQUIRE(pn_ >= 18 && pn_ <= 22, "periodic", "%d events of two threads in ten periods", pn_); if (choose(2, "reload")) { s.reload(); advance(500, 100); REQUIRE(ev["reinit"] == 2 && ev["redeinit"] == 2 && ev["alloc"] == 2, "reload", "%d %d %d", ev["reinit"], ev["redeinit"], ev["alloc"]); } REQUIRE(s.stop(), "stop", "no"); REQUIRE(ev["deinit"] == 2 && ev["dealloc"] == 2 && ev["main_deinit"] == 1 && ev["init"] == 2, "deinit", "%d %d %d", ev["deinit"], ev["dealloc"], ev["main_deinit"]); for (auto &w : want) REQUIRE(disc[w.first] == w.second, "event", "%s: %d after the end", w.first.c_str(), disc[w.first]); count("ends", ends);
}
CHECK(P30, "")
{
    switch (choose(9, "part")) { case 0: writes(); break; case 1: reads(); break; case 2: subs(); break; case 3: wills(); break; case 4: alters(); break; case 5: altersubs(); break; case 6: tasks(); break; case 7: calls(); break; case 8: events(); break; }
}
