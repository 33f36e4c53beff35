// P35 Server limits announced to clients are enforced.
#include "mqtt.h"
#include "model.h"
#include <cstring>
using namespace mc;
using namespace mq;
static const int VER[] = {3, 4, 5};
static const char *MODES[] = {"enabled", "enabled_without_persistence", "enabled_without_retaining", "downgrade", "drop", "disconnect_with_error"};
static uint32_t num(const Pkt &k, int id, uint32_t def) { const Prop *p = find(k.props, id); return p ? p->num : def; }
// closed, and on MQTT 5 told why
static void refused(Cl &c, const char *what, std::initializer_list<int> rcs)
{
    REQUIRE(c.closed(), "not-refused", "%s: not refused", what); int rc = c.connack.rc > 0 ? c.connack.rc : -1; for (auto &k : c.all()) { if (k.type == DISCONNECT || k.type == CONNACK) rc = k.rc; else REQUIRE(k.type == PUBLISH, "reply-to-refused", "%s: got %s", what, k.txt().c_str()); }
    if (c.v5()) { bool ok = false; for (int r : rcs) if (r == rc) ok = true; REQUIRE(ok || !rcs.size(), "reason", "%s: reason code %d", what, rc); } else REQUIRE(rc <= 0 || rc <= 5, "reason", "%s: DISCONNECT sent to an MQTT 3 client", what);
    count("refused");
}
static std::vector<Pkt> seen(Cl &o) { return o.publishes(); }

// A: the values in CONNACK agree with the configuration
static void announced(Server &s)
{
    std::string conf; int maxq = 2, alias = 65535, recv = 512; uint32_t pkt = 268435455, exp = 1209600, rex = 0; bool subid = true, ret = true, gen = false; int keep = 60; bool listener = false;
    auto opt = [&](const std::string &k, const std::string &v) { conf += k + " " + v + "\n"; };
    int q = choose(3, "max_qos"); maxq = q; if (q < 2 || choose(2, "explicit")) { int where = choose(3, "where"); if (where != 1) opt("max_qos", std::to_string(where == 2 ? (q + 1) % 3 : q)); if (where) listener = true; }
    switch (choose(6, "other")) {
    case 0: break;
    case 1: { static const int V[] = {0, 1, 10, 65535}; alias = V[choose(4, "alias")]; opt("max_incoming_topic_alias_value", std::to_string(alias)); break; }
    case 2: { static const int V[] = {32, 100, 65535}; recv = V[choose(3, "recv")]; opt("max_qos_msg_pending_per_client", std::to_string(recv)); break; }
    case 3: { static const int V[] = {200, 4096, 268435455}; pkt = V[choose(3, "pkt")]; opt("max_packet_size", std::to_string(pkt)); break; }
    case 4: { int m = choose(6, "mode"); ret = m < 2; opt("retained_messages_mode", MODES[m]); break; }
    case 5: { subid = choose(2, "subid"); opt("subscription_identifiers_enabled", subid ? "true" : "false"); static const int V[] = {60, 100, 1209600}; exp = V[choose(3, "expiry")]; opt("expire_sessions_after_seconds", std::to_string(exp)); break; }
    }
    if (listener) conf += "listen {\n  protocol mqtt\n  port 1884\n  max_qos " + std::to_string(q) + "\n}\n";
    REQUIRE(s.start(conf), "boot", "no start with %s", conf.c_str());
    Cl c("C", 5); c.port = listener ? 1884 : 1883; static const int K[] = {0, 1, 4, 5, 6, 60, 65535}; keep = K[choose(7, "keepalive")]; c.o.keepalive = keep;
    gen = choose(2, "id assigned"); if (gen) c.o.id = ""; static const uint32_t X[] = {0, 1, 60, 101, 5000000, 0xffffffff}; int xi = choose(7, "session expiry"); if (xi) { rex = X[xi - 1]; c.o.props = {pn(P_SESSEXP, rex)}; }
    REQUIRE(c.connect(), "connect", "not accepted"); Pkt k = c.connack; note("%s keep alive %d expiry %u%s: %s", conf.c_str(), keep, rex, gen ? ", no id" : "", k.txt().c_str());
    REQUIRE((int)num(k, P_MAXQOS, 2) == maxq && (maxq < 2 || !find(k.props, P_MAXQOS)), "max-qos", "maximum QoS %u", num(k, P_MAXQOS, 2));
    REQUIRE((int)num(k, P_ALIASMAX, 0) == alias, "alias-max", "%u", num(k, P_ALIASMAX, 0)); REQUIRE((int)num(k, P_RECVMAX, 65535) == recv, "receive-max", "%u", num(k, P_RECVMAX, 65535)); REQUIRE(num(k, P_MAXPKT, 268435455) == pkt, "packet-size", "%u", num(k, P_MAXPKT, 0));
    REQUIRE((num(k, P_RETAINAVAIL, 1) == 1) == ret, "retain-available", "%u", num(k, P_RETAINAVAIL, 1)); REQUIRE((num(k, P_SUBIDAVAIL, 1) == 1) == subid, "subscription-identifiers", "%u", num(k, P_SUBIDAVAIL, 1));
    REQUIRE(num(k, P_WILDAVAIL, 1) == 1 && num(k, P_SHAREDAVAIL, 1) == 1, "wildcard-shared", "no"); REQUIRE(num(k, P_SESSEXP, rex) == std::min(rex, exp), "session-expiry", "%u instead of %u", num(k, P_SESSEXP, rex), std::min(rex, exp));
    REQUIRE((int)num(k, P_SRVKEEP, keep) == std::max(keep, 5), "keep-alive", "%u", num(k, P_SRVKEEP, keep)); const Prop *a = find(k.props, P_ASSIGNED); REQUIRE((a != nullptr) == gen && (!a || a->s.size() >= 8), "assigned-id", "%s", a ? a->s.c_str() : "none");
    if (gen) { Cl d("", 5); d.port = c.port; REQUIRE(d.connect(), "connect", "second"); const Prop *b = find(d.connack.props, P_ASSIGNED); REQUIRE(b && b->s != a->s, "assigned-id", "two clients got the same one"); REQUIRE(!c.closed() && c.ping(), "assigned-id", "the first was replaced"); }
    std::set<int> ids; for (auto &p : k.props) if (p.id != P_USER) REQUIRE(ids.insert(p.id).second, "double", "property %d twice", p.id);
    // the granted QoS is the smaller one
    std::vector<int> codes; REQUIRE(c.subscribe({{"a", 0}, {"b", 1}, {"c", 2}}, {}, &codes), "suback", "no"); REQUIRE(codes == (std::vector<int>{0, std::min(1, maxq), std::min(2, maxq)}), "granted", "wrong");
    count("connacks");
}

// B: QoS and retain of publishes and wills
static void qos_retain(Server &s)
{
    int maxq = choose(3, "max_qos"), mode = choose(6, "mode"); bool drop = choose(2, "drop"), listener = choose(2, "listener"); std::string lim = "max_qos " + std::to_string(maxq) + "\nmqtt3_qos_exceed_action " + (drop ? "drop" : "disconnect") + "\n", conf = std::string("retained_messages_mode ") + MODES[mode] + "\n";
    conf += listener ? "listen {\n  protocol mqtt\n  port 1884\n" + lim + "}\n" : lim + "listen {\n  protocol mqtt\n  port 1884\n}\nlisten {\n  protocol mqtt\n  port 1885\n  max_qos 2\n}\n";
    REQUIRE(s.start(conf), "boot", "no start with %s", conf.c_str());
    Cl o("O", 5); o.port = listener ? 1883 : 1885; o.o.props = {}; REQUIRE(o.connect() && o.subscribe({{"#", 2, false, true}}), "connect", "O");
    int ver = VER[choose(3, "version")], q = choose(3, "qos"); bool r = choose(2, "retain"), will = choose(2, "will"), queue = choose(2, "twice"); bool v5 = ver == 5;
    Cl c("C", ver); c.port = 1884; bool over = q > maxq, refuse_ret = r && mode == 5; bool refuse = refuse_ret || (over && (v5 || !drop)); bool nothing = refuse || (over && drop) || (r && mode == 4); 
    note("%s%s version %d: QoS %d%s", conf.c_str(), will ? "will" : "publish", ver, q, r ? " retain" : "");
    if (will) {
        if (queue) prune(); c.o.will = Will{"w", "x", q, r, {}}; bool ok = c.connect();
        if (refuse && !(ok && r && mode == 4)) { REQUIRE(!ok, "not-refused", "the will was accepted"); refused(c, "will", {0x9a, 0x9b}); }
        else { REQUIRE(ok, "refused-wrongly", "%s", c.connack.txt().c_str()); c.close(); settle(); advance(3000); }
    } else {
        REQUIRE(c.connect(), "connect", "C");
        for (int i = 0; i < 1 + queue; i++) {
            if (refuse) { c.pub("w", "x", q, r); settle(); refused(c, "publish", {0x9a, 0x9b}); break; }
            REQUIRE(c.publish("w", "x", q, r), "ack", "no complete acknowledgement"); 
        }
        if (!refuse) { REQUIRE(!c.closed() && c.ping(), "refused-wrongly", "closed"); if (choose(2, "again")) REQUIRE(c.publish("v", "y", 0), "ack", "no"); c.disconnect(); settle(); }
    }
    auto v = seen(o); std::vector<Pkt> w; for (auto &k : v) if (k.topic == "w") w.push_back(k); REQUIRE(w.size() == (nothing ? 0u : 1u + queue), "delivery", "%zu messages delivered", w.size());
    for (auto &k : w) REQUIRE(k.payload == "x" && k.qos == q && k.retain == (r && mode < 3), "delivery", "delivered %s", k.txt().c_str());
    Cl n("N", 4); n.port = o.port; REQUIRE(n.connect() && n.subscribe({{"#", 2}}), "connect", "N"); advance(60); auto z = seen(n); bool kept = r && !nothing && mode < 2;
    REQUIRE(z.size() == (kept ? 1u : 0u) && (!kept || (z[0].payload == "x" && z[0].qos == q && z[0].retain)), "retained", "%zu retained messages", z.size());
    REQUIRE(!o.closed() && o.ping(), "bystander", "closed"); count("qos-retain");
}

// C: topic aliases
static void aliases(Server &s)
{
    static const int M[] = {0, 1, 2, 10, 65535}; int m = M[choose(5, "max")]; REQUIRE(s.start("max_incoming_topic_alias_value " + std::to_string(m) + "\n"), "boot", "no");
    Cl o("O", 4); REQUIRE(o.connect() && o.subscribe({{"#", 0}}), "connect", "O"); Cl c("C", 5); REQUIRE(c.connect(), "connect", "C"); std::map<int, std::string> model; int depth = param("aliases", thorough() ? 4 : 3);
    std::set<int> vs = {0, 1, 2, m, m + 1, 65535}; std::vector<int> v; for (int x : vs) if (x <= 65535) v.push_back(x);
    for (int i = 0; i < depth; i++) {
        int a = v[choose(v.size(), "alias")]; int t = choose(3, "topic"); std::string topic = t == 0 ? "" : t == 1 ? "ta" : "tb/c"; note("alias %d topic '%s'", a, topic.c_str());
        if (choose(2, "reload")) { if (i) prune(); s.write_conf("max_incoming_topic_alias_value " + std::to_string(m == 1 ? 5 : 1) + "\n"); s.reload(); note("reload"); }
        c.pub(topic, "p" + std::to_string(i), 0, false, {pn(P_ALIAS, a)}); settle();
        bool bad = a == 0 || a > m || (topic.empty() && !model.count(a)); if (bad) { refused(c, "alias", {0x94, 0x82, 0x81}); REQUIRE(seen(o).empty(), "delivery", "delivered although refused"); return; }
        if (!topic.empty()) model[a] = topic; auto k = seen(o); REQUIRE(k.size() == 1 && k[0].topic == model[a] && k[0].payload == "p" + std::to_string(i), "delivery", "%zu", k.size()); count("aliased");
    }
}

// D: packet size, string length, topic depth
static void sizes(Server &s)
{
    int lim = choose(3, "limit"); static const int P[] = {200, 1000, 70000}, L[] = {20, 100, 4096}, D[] = {1, 3, 128}; int n = choose(3, "value"); int val = lim == 0 ? P[n] : lim == 1 ? L[n] : D[n];
    static const char *NAMES[] = {"max_packet_size", "max_string_length", "max_topic_split_depth"}; std::string conf = std::string(NAMES[lim]) + " " + std::to_string(val) + "\n"; if (lim == 2 && n == 2) conf = "";
    REQUIRE(s.start(conf), "boot", "no start with %s", conf.c_str());
    int d = choose(5, "size") - 1; int sz = d == 3 ? val * 2 : val + d; if (sz < 1) prune(); bool over = sz > val; int ver = VER[choose(3, "version")]; int where = choose(7, "where");
    bool deep = lim == 2; auto mk = [&](int k) { std::string t; if (deep) { for (int i = 0; i < k; i++) t += i ? "/a" : "a"; } else t.assign(k, 'a'); return t; };
    Cl o("O", 4); REQUIRE(o.connect() && o.subscribe({{"+", 0}}), "connect", "O");
    static const char *W[] = {"publish", "will", "will later", "subscribe", "unsubscribe", "client id", "username"}; note("%s%s of %d, version %d", conf.c_str(), W[where], sz, ver); count(W[where]);
    Cl c("C", ver); int pad = 0; std::string t = lim ? mk(sz) : "t", payload = "x"; if (!lim && where > 0 && where != 3) prune(); if (deep && where > 4) prune(); if (ver == 3 && where == 5 && sz > 23) pad = 0;
    if (where == 5) { c.o.id = t; } if (where == 6) { c.o.user = t; c.o.pass = "x"; } 
    if (where == 1 || where == 2) { c.o.will = Will{t, "bye", 1, true, {}}; if (where == 2) { if (ver < 5) prune(); c.o.will->props = {pn(P_WILLDELAY, 1)}; c.o.props = {pn(P_SESSEXP, 500)}; } }
    if (!lim && ver == 5 && where == 0) { }
    // a second client whose delayed will is due at the same moment
    Cl e("E", 5); e.o.will = Will{"e", "bye", 1, false, {pn(P_WILLDELAY, 1)}}; e.o.props = {pn(P_SESSEXP, 500)}; if (where == 2) REQUIRE(e.connect(), "connect", "E");
    bool ok = c.connect(); bool con = where == 1 || where == 2 || where >= 5; // limits that apply to CONNECT itself
    if (con && over && !ok) { refused(c, W[where], {}); }
    else if (con && over && lim == 1) fail("not-refused", "a %s longer than max_string_length was accepted", W[where]);
    else {
        REQUIRE(ok, "refused-wrongly", "%s of %d refused: %s", W[where], sz, c.connack.txt().c_str());
        if (where == 0) {
            if (!lim) { std::string b = publish(ver, "t", "", 0); int len = sz - (int)b.size(); for (int i = 0; i < 4; i++) { std::string x = publish(ver, "t", std::string(std::max(0, len), 'p'), 0); if ((int)x.size() == sz) break; len += sz - (int)x.size(); } payload.assign(len, 'p'); if ((int)publish(ver, "t", payload, 0).size() != sz) prune(); }
            c.pub(t, payload, 0); settle(); if (over) lim ? refused(c, "publish", {}) : refused(c, "publish", {0x95}); else REQUIRE(!c.closed() && c.ping(), "refused-wrongly", "closed");
            auto k = seen(o); bool vis = !over && (!deep || sz == 1); REQUIRE(k.size() == (vis ? 1u : 0u) && (!vis || k[0].payload == payload), "delivery", "%zu", k.size());
        } else if (where == 1 || where == 2) {
            c.close(); if (where == 2) e.close(); settle(); advance(6000, 500); auto k = seen(o); bool vis = !deep || sz == 1; size_t nw = 0, ne = 0; for (auto &x : k) (x.topic == "e" ? ne : nw)++;
            if (!over) REQUIRE(nw == (vis ? 1u : 0u), "delivery", "%zu wills", nw); else REQUIRE(nw == 0, "delivery", "will on a refused topic sent"); if (where == 2) REQUIRE(ne == 1, "other-will", "the will of another client was sent %zu times", ne);
        } else if (where == 3 || where == 4) {
            if (!lim) { int len = sz - (int)subscribe(ver, 1, {{"", 0}}).size(); std::string x; for (int i = 0; i < 4; i++) { x.assign(std::max(1, len), 'f'); int is = subscribe(ver, 1, {{x, 0}}).size(); if (is == sz) break; len += sz - is; } if ((int)subscribe(ver, 1, {{x, 0}}).size() != sz || x.size() > 4096) prune(); t = x; }
            if (where == 3) c.sub({{t, 0}}); else c.raw(unsubscribe(ver, 9, {t})); settle();
            if (over) lim ? refused(c, W[where], {}) : refused(c, W[where], {0x95}); else { REQUIRE(!c.closed(), "refused-wrongly", "closed"); REQUIRE(c.pop(where == 3 ? SUBACK : UNSUBACK), "suback", "no reply"); }
        }
        else if (over && !(deep || !lim)) REQUIRE(0, "not-refused", "%s", W[where]);
    }
    (void)pad;
    REQUIRE(!o.closed() && o.ping(), "bystander", "closed"); Cl z("Z", 4); REQUIRE(z.connect() && z.publish("zz", "1", 1), "serving", "no longer serving"); auto k = seen(o); REQUIRE(k.size() == 1, "serving", "not delivered"); advance(12000, 1000); REQUIRE(o.ping(), "serving", "no longer serving");
}

// E: subscription identifiers switched off, wills switched off, anonymous empty user name
static void switches(Server &s)
{
    if (choose(2, "which")) {
        bool on = choose(2, "enabled"); int when = choose(2, "reloaded"); std::string c0 = std::string("subscription_identifiers_enabled ") + ((when ? !on : on) ? "true" : "false") + "\n"; REQUIRE(s.start(c0), "boot", "no");
        Cl c("C", 5); REQUIRE(c.connect(), "connect", "C"); bool before = when ? !on : on; if (before) REQUIRE(c.subscribe({{"k", 0}}, {pn(P_SUBID, 3)}), "suback", "no");
        if (when) { s.write_conf(std::string("subscription_identifiers_enabled ") + (on ? "true" : "false") + "\n"); s.reload(); }
        c.sub({{"t", 1}}, {pn(P_SUBID, 5)}); settle(); if (!on) { refused(c, "subscription identifier", {0xa1, 0x82}); return; }
        REQUIRE(!c.closed(), "refused-wrongly", "closed"); c.all(); Cl p("P", 4); REQUIRE(p.connect() && p.publish("t", "x", 1), "publish", "no"); auto k = seen(c); REQUIRE(k.size() == 1 && num(k[0], P_SUBID, 0) == 5, "identifier", "not in the message"); count("subid");
    } else {
        bool on = choose(2, "enabled"); int when = choose(2, "reloaded"); std::string c0 = std::string("wills_enabled ") + ((when ? !on : on) ? "true" : "false") + "\n"; REQUIRE(s.start(c0), "boot", "no");
        Cl o("O", 4); REQUIRE(o.connect() && o.subscribe({{"#", 0}}), "connect", "O"); Cl c("C", VER[choose(3, "version")]); int q = choose(3, "qos"); bool r = choose(2, "retain"); int del = choose(2, "delay"); c.o.will = Will{"w", "x", q, r, {}}; if (del) { if (!c.v5()) prune(); c.o.will->props = {pn(P_WILLDELAY, 1)}; c.o.props = {pn(P_SESSEXP, 100)}; }
        bool at_connect = when ? !on : on; REQUIRE(c.connect(), "connect", "C"); if (when) { s.write_conf(std::string("wills_enabled ") + (on ? "true" : "false") + "\n"); s.reload(); }
        c.close(); settle(); advance(6000, 500); auto k = seen(o); bool want = at_connect && on; REQUIRE(k.size() == (want ? 1u : 0u), "will", "%zu wills sent", k.size()); count("wills");
    }
}

// F: how broad a wildcard subscription may be
static void broad(Server &s)
{
    int m = choose(4, "minimum"), deny = choose(3, "mode"); std::string conf = "minimum_wildcard_subscription_depth " + std::to_string(m) + "\n"; if (deny) conf += std::string("wildcard_subscription_deny_mode ") + (deny == 1 ? "deny_all" : "deny_retained_only") + "\n";
    REQUIRE(s.start(conf), "boot", "no"); Cl p("P", 4); REQUIRE(p.connect(), "connect", "P"); static const char *T[] = {"a", "a/b", "a/b/c", "a/b/c/d"}; for (auto t : T) REQUIRE(p.publish(t, "r", 0, true), "publish", "no");
    static const char *E[] = {"a", "b", "+"}; std::string f; int lv = 1 + choose(4, "levels"); for (int i = 0; i < lv; i++) { const char *e = E[choose(3, "level")]; f += (i ? "/" : "") + std::string(e); } bool hash = choose(2, "#"); if (hash) f += "/#"; if (choose(2, "only #")) { if (f != "a/#") prune(); f = "#"; }
    bool share = choose(2, "shared"); int ver = VER[choose(3, "version")]; auto lvls = model::split(f); int first = 99; for (int i = (int)lvls.size() - 1; i >= 0; i--) if (lvls[i] == "+" || lvls[i] == "#") first = i;
    bool bad = first < m, denied = bad && deny < 2; note("%s%s%s version %d", conf.c_str(), share ? "$share/g/" : "", f.c_str(), ver);
    Cl c("C", ver); REQUIRE(c.connect(), "connect", "C"); std::vector<int> codes; REQUIRE(c.subscribe({{(share ? "$share/g/" : "") + f, 1}, {"a/b/c/d", 0}}, {}, &codes) && codes.size() == 2, "suback", "no");
    if (ver > 3) REQUIRE(denied ? codes[0] >= 0x80 : codes[0] == 1, "code", "return code %d", codes[0]); REQUIRE(codes[1] == 0, "code", "%d", codes[1]); advance(60);
    std::vector<std::string> want, got; for (auto t : T) { if (!share && !bad && model::matches(f, t)) want.push_back(t); } want.push_back("a/b/c/d"); for (auto &k : seen(c)) { REQUIRE(k.retain, "retain", "no"); got.push_back(k.topic); } std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); REQUIRE(got == want, "retained", "retained messages %s instead of %s", model::join(got).c_str(), model::join(want).c_str());
    want.clear(); got.clear(); for (auto t : T) { REQUIRE(p.publish(t, "l", 1), "publish", "no"); if (!denied && model::matches(f, t)) want.push_back(t); } want.push_back("a/b/c/d"); for (auto &k : seen(c)) got.push_back(k.topic); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); REQUIRE(got == want, "live", "messages %s instead of %s", model::join(got).c_str(), model::join(want).c_str()); count("filters");
}

// G: an existing connection keeps the limits it was told, a new one gets the new
static void reloaded(Server &s)
{
    int what = choose(2, "what"); int a = choose(3, "before"), b = choose(3, "after"); if (a == b) prune(); static const int P[] = {300, 1000, 5000}; auto conf = [&](int i) { return what ? "max_packet_size " + std::to_string(P[i]) + "\n" : "max_qos " + std::to_string(i) + "\n"; };
    REQUIRE(s.start(conf(a)), "boot", "no"); bool v5 = choose(2, "version"); Cl c("C", v5 ? 5 : 4); REQUIRE(c.connect(), "connect", "C"); s.write_conf(conf(b)); s.reload(); REQUIRE(!c.closed(), "dropped", "closed by the reload"); bool fresh = choose(2, "new connection"); Cl n("N", v5 ? 5 : 4); Cl &x = fresh ? n : c; if (fresh) REQUIRE(n.connect(), "connect", "N");
    int lim = fresh ? b : a, v = choose(3, "value"); note("%s then %s: %s connection, %d", conf(a).c_str(), conf(b).c_str(), fresh ? "new" : "old", v); bool over = v > lim;
    if (fresh && v5) REQUIRE(what ? (int)num(n.connack, P_MAXPKT, 0) == P[b] : (int)num(n.connack, P_MAXQOS, 2) == b, "announced", "not the new value");
    if (what) x.pub("t", std::string(P[v] - 20, 'x'), 0); else x.pub("t", "x", v); settle(); if (over) refused(x, "limit", {0x95, 0x9b}); else { if (!what && v == 2) { REQUIRE(x.pop(PUBREC), "ack", "no"); } REQUIRE(!x.closed() && x.ping(), "refused-wrongly", "closed"); } count("reloads");
    if (!what && !x.closed()) { std::vector<int> codes; REQUIRE(x.subscribe({{"q", 2}}, {}, &codes) && codes[0] == lim, "granted", "%d", codes[0]); }
}
CHECK(P35, "")
{
    Server s;
    switch (choose(7, "part")) { case 0: announced(s); break; case 1: qos_retain(s); break; case 2: aliases(s); break; case 3: sizes(s); break; case 4: switches(s); break; case 5: broad(s); break; case 6: reloaded(s); break; }
}
