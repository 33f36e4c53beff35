// P29 A bridge forwards what it is configured to, and only that.
#include "broker.h"
using namespace mc;
using namespace mq;
// The broker at the other end, played by us.
struct Rem {
    sim::ConnP c; std::string buf; std::deque<Pkt> rx; int ver = 4; std::map<int, std::string> alias; bool alias_used = false; Pkt con; unsigned nid = 100;
    void pump() { if (!c) return; buf += sim::take(c); for (;;) { Pkt p; std::string err; int r = decode(buf, ver, p, err, true); if (!r) break; REQUIRE(r > 0, "garbage", "the bridge sends a malformed packet: %s %s", err.c_str(), hex(buf).c_str());
        if (p.type == PUBLISH) { if (auto *a = find(p.props, P_ALIAS)) { alias_used = true; if (!p.topic.empty()) alias[a->num] = p.topic; else p.topic = alias[a->num]; } REQUIRE(!p.topic.empty(), "topic", "a message without topic"); } rx.push_back(p); } }
    bool up() { pump(); return !con.co.id.empty() || take_connect(); }
    bool take_connect() { if (rx.empty()) return false; REQUIRE(rx[0].type == CONNECT, "first", "the first packet of the bridge is %s", rx[0].txt().c_str()); con = rx[0]; rx.pop_front(); return true; }
    void raw(const std::string &b) { op(); sim::feed(c, b); }
    void accept(bool sp = false, const Props &p = {}) { raw(mq::connack(ver, sp, 0, p)); settle(); }
    std::optional<Pkt> pop(int type) { pump(); for (auto i = rx.begin(); i != rx.end(); ++i) if (i->type == type) { Pkt p = *i; rx.erase(i); return p; } return {}; }
    std::optional<Pkt> ack_sub() { auto p = pop(SUBSCRIBE); if (!p) return p; std::vector<int> codes; for (auto &f : p->filters) codes.push_back(f.qos); raw(mq::suback(ver, p->id, codes)); settle(); return p; }
    bool closed() { return !c || c->srv_closed; }
    void close(bool rst = false) { op(); sim::close_peer(c, rst); settle(); }
    // messages sent by the bridge, acknowledged
    std::vector<Pkt> publishes() { std::vector<Pkt> v; for (bool more = true; more;) { more = false; settle(); pump(); for (size_t i = 0; i < rx.size();) { Pkt p = rx[i]; if (p.type == PUBLISH) { v.push_back(p); if (p.qos) raw(ack(ver, p.qos == 1 ? PUBACK : PUBREC, p.id)); rx.erase(rx.begin() + i); more = true; } else if (p.type == PUBREL) { raw(ack(ver, PUBCOMP, p.id)); rx.erase(rx.begin() + i); more = true; } else i++; } } return v; }
    // gives the bridge a message, with the handshake
    bool give(const std::string &t, const std::string &pl, int qos, bool retain = false, const Props &p = {}) { unsigned id = qos ? nid++ : 0; raw(mq::publish(ver, t, pl, qos, id, retain, false, p)); settle(); if (!qos) return true; auto a = pop(qos == 1 ? PUBACK : PUBREC); if (!a || a->id != id) return false; if (qos == 1) return true; raw(ack(ver, PUBREL, id)); settle(); a = pop(PUBCOMP); return a && a->id == id; }
};
static std::map<std::string, int> refuse; // address -> errno
static std::map<std::string, std::vector<std::string>> dns; static int dns_err = 0; static int dns_asked = 0;
static void network() { refuse.clear(); dns.clear(); dns_err = 0; dns_asked = 0; sim::net().resolve = [](const std::string &n, std::vector<std::string> &out) { dns_asked++; if (dns_err) return dns_err; if (dns.count(n)) out = dns[n]; else out = {n}; return 0; }; sim::net().connect = [](const std::string &d, int) { return refuse.count(d) ? refuse[d] : 0; }; }
static size_t taken = 0;
// the next connection the server makes, within some time
static bool next(Rem &r, int ver, uint64_t ms = 7000) { for (uint64_t t = 0;; t += 500) { settle(); auto &o = sim::outgoing(); for (; taken < o.size(); taken++) { auto c = o[taken]; if (c->connect_state == 1) { taken++; r = Rem(); r.c = c; r.ver = ver; settle(); REQUIRE(r.up(), "connect", "the bridge connects but says nothing"); return true; } } if (t >= ms) return false; advance(500, 500); } }
static const char *VN[] = {"", "", "", "mqtt3.1", "mqtt3.1.1", "mqtt5"};
static std::string bridge(int ver, const std::string &more, const std::string &addr = "10.9.9.9", int port = 1999) { return "bridge {\naddress " + addr + "\nport " + std::to_string(port) + "\nprotocol_version " + VN[ver] + "\n" + more + "}\n"; }
static std::string sys(const std::string &t) { Cl q("sysq", 4); REQUIRE(q.connect() && q.subscribe({{"$SYS/broker/bridge/#", 0}}), "setup", "sysq"); std::string r = "none"; for (auto &p : q.publishes()) if (p.topic == "$SYS/broker/bridge/" + t) r = p.payload; q.disconnect(); return r; }
static std::string str_of(const std::vector<std::string> &v) { std::string r; for (auto &x : v) r += x + " "; return r; }

// 1. What the bridge says in CONNECT, and what it does with the answer.
static void greeting()
{
    int ver = 3 + choose(3, "version"), v = choose(12, "option"); std::string conf; bool bit = true, clean = true; int ka = 60; std::optional<std::string> user, pass; uint32_t se = 0; int am = 0; std::string pre = "fmqbridge"; int q = 1;
    switch (v) { case 1: conf = "bridge_protocol_bit false\n"; bit = false; break; case 2: conf = "remote_clean_start false\n"; clean = false; break; case 3: conf = "keepalive 10\n"; ka = 10; break; case 4: conf = "remote_username ru\n"; user = "ru"; break; case 5: conf = "remote_username ru\nremote_password rp\n"; user = "ru"; pass = "rp"; break; case 6: conf = "remote_session_expiry_interval 77\n"; se = 77; break; case 7: conf = "max_incoming_topic_aliases 9\n"; am = 9; break; case 8: conf = "clientid_prefix other\n"; pre = "other"; break; case 9: conf = "local_clean_start false\nlocal_session_expiry_interval 55\nlocal_username lu\n"; break; case 10: conf = "max_outgoing_topic_aliases 9\nremote_retain_available false\ntcp_nodelay true\nmax_buffer_size 99999\n"; break; case 11: conf = "keepalive 65000\n"; ka = 65000; break; }
    network(); Server s; note("%s %s", VN[ver], conf.c_str()); REQUIRE(s.start(bridge(ver, conf + "subscribe in/# " + std::to_string(q) + "\nsubscribe in2 2\npublish out/# 2\n")), "boot", "no"); Rem r; REQUIRE(next(r, ver), "connect", "the bridge doesn't connect"); REQUIRE(r.c->dest == "10.9.9.9" && r.c->port == 1999, "address", "the bridge connects to %s:%d", r.c->dest.c_str(), r.c->port);
    auto &c = r.con.co; REQUIRE(r.con.proto == (ver | (bit && ver < 5 ? 0x80 : 0)), "connect", "protocol level %x", r.con.proto); REQUIRE(c.clean == clean && c.keepalive == ka, "connect", "clean %d keepalive %d", c.clean, c.keepalive); REQUIRE(c.user == user && c.pass == pass, "connect", "user or password differ from the configuration"); REQUIRE(!c.will, "connect", "a will"); REQUIRE(c.id.rfind(pre + "_", 0) == 0 && c.id.size() == pre.size() + 11, "connect", "client id %s", c.id.c_str());
    if (ver == 5) { auto num = [&](int id, uint32_t d) { auto *p = find(c.props, id); return p ? p->num : d; }; REQUIRE(num(P_SESSEXP, 0) == se && (int)num(P_ALIASMAX, 0) == am, "connect", "session expiry %u, alias maximum %u", num(P_SESSEXP, 0), num(P_ALIASMAX, 0)); for (auto &p : c.props) REQUIRE(p.id == P_SESSEXP || p.id == P_ALIASMAX || p.id == P_USER, "connect", "property %d", p.id); } else REQUIRE(c.props.empty(), "connect", "properties");
    int a = choose(ver == 5 ? 12 : 7, "answer"); advance(100); r.pump(); REQUIRE(r.rx.empty(), "early", "before CONNACK, the bridge sends %s", r.rx[0].txt().c_str()); REQUIRE(sys(pre + "/connected") != "1", "state", "bridge shown as connected before CONNACK");
    int maxq = 2; bool bad = false, sp = false; Props p; int ka2 = ka; std::string what = "accepted";
    switch (a) { case 1: sp = true; if (ver == 3) prune(); break; case 2: bad = true; what = "refused"; r.raw(connack(ver, false, ver == 5 ? 0x87 : 5)); break; case 3: bad = true; what = "refused with 1"; r.raw(connack(ver, false, ver == 5 ? 0x84 : 1)); break; case 4: bad = true; what = "no CONNACK but a PUBLISH"; r.raw(publish(ver, "in/1", "early", 0)); break; case 5: bad = true; what = "garbage"; r.raw(std::string("\xf3\x80\x00zz", 5)); break; case 6: bad = true; what = "closed"; sim::close_peer(r.c); break;
    case 7: p = {pn(P_MAXQOS, 1)}; maxq = 1; break; case 8: p = {pn(P_MAXQOS, 0)}; maxq = 0; break; case 9: p = {pn(P_SRVKEEP, 20)}; ka2 = 20; break; case 10: p = {ps(P_ASSIGNED, "newname"), pn(P_RECVMAX, 3), pn(P_RETAINAVAIL, 0), pn(P_MAXPKT, 500), pn(P_ALIASMAX, 3), pn(P_WILDAVAIL, 1), pn(P_SUBIDAVAIL, 0), pn(P_SHAREDAVAIL, 0), pn(P_SESSEXP, 5), ps(P_REASON, "hello"), pu("a", "b"), ps(P_SRVREF, "x"), ps(P_RESPINFO, "y")}; break; case 11: bad = true; what = "properties it doesn't have"; r.raw(connack(ver, false, 0, {pn(P_WILLDELAY, 5)})); break; }
    note("answer: %s", what.c_str()); Cl L("L", 4); REQUIRE(L.connect() && L.subscribe({{"#", 1}}), "setup", "L");
    if (bad) { settle(); advance(300); if (a == 4 && !r.closed()) sim::close_peer(r.c), settle(); /* may just be ignored */ REQUIRE(r.closed(), "refused", "the bridge keeps the connection (%s)", what.c_str()); r.pump(); for (auto &x : r.rx) REQUIRE(x.type == DISCONNECT, "refused", "the bridge sends %s after %s", x.txt().c_str(), what.c_str()); REQUIRE(L.publishes().empty(), "refused", "something was published locally"); REQUIRE(sys(pre + "/connected") == "0", "state", "bridge shown as connected"); // and it comes again
        Rem r2; bool back = next(r2, ver, 12000); REQUIRE(back || next(r2, ver, 60000), "again", "the bridge doesn't come back within 72 s after %s", what.c_str()); REQUIRE(r2.con.co.id == c.id && r2.con.co.clean == c.clean, "again", "it comes back as someone else"); r = r2; }
    r.accept(sp, bad ? Props{} : p); auto sub = r.ack_sub(); REQUIRE(sub, "subscribe", "the bridge doesn't subscribe"); REQUIRE(sub->filters.size() == 2 && sub->filters[0].f == "in/#" && sub->filters[0].qos == std::min(q, maxq) && sub->filters[1].f == "in2" && sub->filters[1].qos == std::min(2, maxq), "subscribe", "the bridge subscribes to %s", sub->txt().c_str());
    if (ver == 5) for (auto &f : sub->filters) REQUIRE(f.nl && f.rap && f.rh == 0, "subscribe", "subscription options no-local %d, retain as published %d, retain handling %d", f.nl, f.rap, f.rh);
    REQUIRE(sys(pre + "/connected") == "1", "state", "bridge not shown as connected"); REQUIRE(r.give("in/1", "hello", 1), "inward", "no answer"); auto v1 = L.publishes(); REQUIRE(v1.size() == 1 && v1[0].topic == "in/1" && v1[0].payload == "hello", "inward", "L gets %zu messages", v1.size());
    REQUIRE(L.publish("out/1", "there", 2), "setup", "no"); auto v2 = r.publishes(); if (a == 10 && !bad) { REQUIRE(L.publish("out/1", std::string(600, 'b'), 1), "setup", "no"); REQUIRE(r.publishes().empty(), "limit", "a packet larger than the other end accepts is sent"); } REQUIRE(v2.size() == 1 && v2[0].topic == "out/1" && v2[0].payload == "there" && v2[0].qos <= maxq, "outward", "the other end gets %zu messages", v2.size());
    // it keeps the connection alive
    int ka3 = bad ? ka : ka2; if (ka3 < 100) { for (int i = 0; i < 3; i++) { uint64_t t = 0, lim = (uint64_t)ka3 * 1500; bool ping = false; for (; t < lim && !ping; t += 1000) { advance(1000, 1000); r.pump(); ping = !!r.pop(PINGREQ); } REQUIRE(ping && !r.closed(), "keepalive", "no PINGREQ within %d s", ka3 * 3 / 2); r.raw(std::string("\xd0\0", 2)); settle(); } 
        if (choose(2, "silence")) { for (int i = 0; i < 300 && !r.closed(); i++) { advance(1000, 1000); } REQUIRE(r.closed() || ka3 > 100, "silence", "the bridge keeps a dead connection for 300 s"); Rem r2; REQUIRE(next(r2, ver, 12000), "silence", "it doesn't come back"); r2.accept(); REQUIRE(r2.ack_sub(), "silence", "it doesn't subscribe again"); } }
    state(std::to_string(v) + what);
}

// 2. One message in each direction, for every combination of prefixes.
static std::string out_topic(std::string t, const std::string &lp, const std::string &rp) { if (!lp.empty() && t.rfind(lp, 0) == 0 && t.size() > lp.size()) t = t.substr(lp.size()); return rp + t; }
static void message()
{
    int ver = 3 + choose(3, "version"), pf = choose(4, "prefixes"); bool two = choose(2, "two bridges"), ret = !choose(2, "retain not available"); int fl = choose(3, "publish"); int aliases = ver == 5 ? choose(2, "aliases") : 0; if (param("few", 0) && (pf != 3 || fl != 1)) prune(); if (!thorough() && (ver == 3 || two + !ret + aliases > 1)) prune();
    std::string lp = pf & 1 ? "lp/" : "", rp = pf & 2 ? "rp/" : ""; int subq = fl == 0 ? 1 : fl == 1 ? 2 : 0; const std::string filter = fl == 0 ? "lp/#" : fl == 1 ? "#" : "+/a";
    std::string conf = "subscribe # 2\npublish " + filter + (subq ? " " + std::to_string(subq) : "") + "\n"; if (pf & 1) conf += "local_prefix lp/\n"; if (pf & 2) conf += "remote_prefix rp/\n"; if (!ret) conf += "remote_retain_available false\n"; if (aliases) conf += "max_outgoing_topic_aliases 2\nmax_incoming_topic_aliases 2\n";
    network(); Server s; REQUIRE(s.start("set_retained_message_defer_timeout 0\n" + bridge(ver, conf) + (two ? bridge(5, "clientid_prefix second\nsubscribe # 2\npublish # 2\n", "10.9.9.8", 1998) : "")), "boot", "no"); Rem r, r2; std::vector<Rem> rs(two ? 2 : 1); for (auto &x : rs) REQUIRE(next(x, ver), "connect", "no"); for (auto &x : rs) { if (x.c->port == 1998) { x.ver = 5; r2 = x; } else r = x; }
    Cl L("L", 5), M("M", 4); REQUIRE(L.connect() && M.connect(), "setup", "no"); int rver = choose(2, "retained before"); static const char *T[] = {"lp/a", "lp/", "lp/rp/a", "rp/a", "rp/", "x/a", "other", "$x/a", "lp"}; if (rver) { REQUIRE(L.publish("lp/a", "old", 1, true), "setup", "no"); REQUIRE(L.publish("x/b", "old2", 0, true), "setup", "no"); advance(300); }
    REQUIRE(L.subscribe({{"#", 2, true, true, 2}}), "setup", "no"); L.all(); r.accept(false, aliases ? Props{pn(P_ALIASMAX, 2)} : Props{}); REQUIRE(r.ack_sub(), "subscribe", "no"); if (two) { r2.accept(); REQUIRE(r2.ack_sub(), "subscribe", "no"); }
    advance(200); { auto g = r.publishes(); std::multiset<std::string> want, got; if (rver && ret) for (auto t : {"lp/a", "x/b"}) if (model::matches(filter, t)) want.insert(out_topic(t, lp, rp) + "|" + (t[0] == 'l' ? "old" : "old2") + "|q" + std::to_string(std::min(subq, t[0] == 'l' ? 1 : 0)) + "|R1"); for (auto &p : g) got.insert(p.topic + "|" + p.payload + "|q" + std::to_string(p.qos) + "|R" + std::to_string(p.retain)); REQUIRE(got == want, "retained", "on connecting, the other end gets %zu retained messages (%s) instead of %zu (%s)", got.size(), got.empty() ? "" : got.begin()->c_str(), want.size(), want.empty() ? "" : want.begin()->c_str()); if (two) r2.publishes(); }
    int dir = choose(two ? 3 : 2, "direction"); std::string t = T[choose(9, "topic")]; int qos = choose(3, "qos"); bool retain = choose(2, "retain"); int reps = aliases ? 2 : 1; bool in_ok = true;
    Props pp = ver == 5 ? Props{ps(P_CTYPE, "ct"), pu("k", "v")} : Props{}; note("%s '%s' qos %d retain %d; local prefix '%s', remote prefix '%s', publish %s", dir ? "in" : "out", t.c_str(), qos, retain, lp.c_str(), rp.c_str(), filter.c_str());
    for (int i = 0; i < reps; i++) { std::string pl = "m" + std::to_string(i); if (dir == 0) {
            REQUIRE(L.publish(t, pl, qos, retain, {ps(P_CTYPE, "ct"), pu("k", "v")}), "setup", "no"); auto g = r.publishes(); bool want = t[0] != '$' && model::matches(filter, t); REQUIRE(g.size() == want, "outward", "the other end gets %zu messages instead of %d", g.size(), want); if (want) { auto &p = g[0]; REQUIRE(p.topic == out_topic(t, lp, rp), "prefix", "'%s' goes out as '%s'", t.c_str(), p.topic.c_str()); REQUIRE(p.payload == pl && p.qos == std::min(qos, subq) && p.retain == (retain && ret), "outward", "goes out as %s", p.txt().c_str()); if (ver == 5) { auto *ct = find(p.props, P_CTYPE); auto *u = find(p.props, P_USER); REQUIRE(ct && ct->s == "ct" && u && u->s == "k", "outward", "properties are lost"); } }
            if (two) { auto h = r2.publishes(); REQUIRE(h.size() == (t[0] != '$'), "outward", "the second bridge forwards %zu", h.size()); }
        } else if (dir == 1) {
            if (i && aliases) r.raw(publish(5, "", pl, 0, 0, retain, false, {pn(P_ALIAS, 1)})), settle(); else { Props q = pp; if (aliases) q.push_back(pn(P_ALIAS, 1)); in_ok = r.give(t, pl, qos, retain, q); }
            std::string lt = t; if (pf & 2 && lt.rfind("rp/", 0) == 0 && lt.size() > 3) lt = lt.substr(3); lt = lp + lt; bool want = lt[0] != '$'; REQUIRE(in_ok, "inward", "the message isn't acknowledged"); auto g = L.publishes(); REQUIRE(g.size() == want, "inward", "L gets %zu messages instead of %d", g.size(), want); if (want) { auto &p = g[0]; REQUIRE(p.topic == lt, "prefix", "'%s' comes in as '%s' instead of '%s'", t.c_str(), p.topic.c_str(), lt.c_str()); REQUIRE(p.payload == pl && p.qos == (i && aliases ? 0 : qos) && p.retain == retain, "inward", "comes in as %s", p.txt().c_str()); if (ver == 5 && !i) REQUIRE(find(p.props, P_CTYPE) && find(p.props, P_USER), "inward", "properties are lost"); REQUIRE(!find(p.props, P_ALIAS), "inward", "alias left"); }
            auto back = r.publishes(); REQUIRE(back.empty(), "loop", "the other end gets its message back: %s", back[0].txt().c_str()); if (two) { auto h = r2.publishes(); REQUIRE(h.size() == want, "inward", "the second bridge forwards %zu of them", h.size()); if (want) REQUIRE(h[0].topic == lt && h[0].qos == (i && aliases ? 0 : qos) && h[0].retain == retain, "inward", "the second bridge forwards %s", h[0].txt().c_str()); }
        } else { // from the second bridge out over the first
            REQUIRE(r2.give(t, pl, qos, retain, {}), "inward", "no"); auto g = r.publishes(); bool want = t[0] != '$' && model::matches(filter, t); REQUIRE(g.size() == want, "outward", "the other end gets %zu messages instead of %d", g.size(), want); if (want) REQUIRE(g[0].topic == out_topic(t, lp, rp) && g[0].payload == pl && g[0].qos == std::min(qos, subq) && g[0].retain == (retain && ret), "outward", "goes out as %s", g[0].txt().c_str()); auto back = r2.publishes(); REQUIRE(back.empty(), "loop", "the other end gets its message back: %s", back[0].txt().c_str()); REQUIRE(L.publishes().size() == (t[0] != '$'), "inward", "L"); } 
        if (retain && i == 0) { Cl N("N", 4); REQUIRE(N.connect() && N.subscribe({{"#", 0}}), "setup", "N"); bool found = false; for (auto &p : N.publishes()) found |= p.payload == pl; std::string lt = dir == 1 ? lp : ""; REQUIRE(found == (t[0] != '$' || !lt.empty()), "retained", "the message is%s retained here", found ? "" : " not"); N.disconnect(); } }
    REQUIRE(M.ping(), "alive", "no"); if (aliases && ver == 5 && dir == 0 && t[0] != '$' && model::matches(filter, t)) REQUIRE(r.alias_used, "alias", "no alias used"); count("messages"); state(t + std::to_string(dir * 10 + pf));
}

// 3. Histories: traffic, losses of the connection at every step, refusals.
static void traffic()
{
    int kind = choose(3, "sessions"); int ver = kind == 2 ? 5 : 4; bool persist = kind; std::string conf = "subscribe in/# 1\npublish out/# 1\n"; if (persist) conf += "remote_clean_start false\nlocal_clean_start false\nlocal_session_expiry_interval 10000\nremote_session_expiry_interval 10000\n";
    network(); Server s; REQUIRE(s.start(bridge(ver, conf)), "boot", "no"); Rem r; REQUIRE(next(r, ver), "connect", "no"); std::string id = r.con.co.id; Cl L("L", 4), P("P", 4); REQUIRE(L.connect() && L.subscribe({{"#", 1}}) && P.connect(), "setup", "no");
    enum { Wait, Up, Gone } st = Wait; int seq = 0; std::vector<std::string> q1, must; std::set<std::string> may; std::map<unsigned, std::string> unacked; // what the other end has but did not acknowledge
    bool had = false; int depth = param("depth", thorough() ? 8 : 5); Rem keep; std::vector<Pkt> got_all; std::set<std::string> done_q1; std::map<std::string, int> times; int fails = 0; bool shake = false;
    auto collect = [&](bool do_ack) { r.pump(); for (size_t i = 0; i < r.rx.size();) { Pkt p = r.rx[i]; if (p.type != PUBLISH) { i++; continue; } r.rx.erase(r.rx.begin() + i); REQUIRE(st == Up, "early", "before CONNACK, the bridge sends %s", p.txt().c_str()); REQUIRE(may.count(p.payload), "outward", "the bridge sends %s, which it should not", p.txt().c_str()); REQUIRE(p.topic == "out/x", "outward", "topic %s", p.topic.c_str()); if (p.qos) unacked[p.id] = p.payload; times[p.payload]++; if (p.payload[0] == 'z') { REQUIRE(times[p.payload] == 1, "twice", "QoS 0 message %s is sent twice", p.payload.c_str()); } else if (!p.dup) REQUIRE(times[p.payload] == 1, "twice", "message %s is sent again without DUP", p.payload.c_str()); got_all.push_back(p); if (!do_ack) continue; } if (do_ack) { for (auto &u : unacked) { r.raw(ack(ver, PUBACK, u.first)); done_q1.insert(u.second); may.erase(u.second); } unacked.clear(); settle(); } };
    auto lost = [&] { st = Gone; unacked.clear(); if (!persist) { may.clear(); must.clear(); } else { for (auto i = may.begin(); i != may.end();) if ((*i)[0] == 'z') i = may.erase(i); else ++i; } };
    auto login = [&](bool sp) { if (st != Wait) return; if (!sp && had) {  } if (!sp) { for (auto i = may.begin(); i != may.end();) { ++i; } } st = Up; shake = false; r.accept(sp); fails = 0; had = true; };
    for (int d = 0; d < depth; d++) {
        int o = choose(9, "op"); switch (o) {
        case 0: case 1: { std::string pl = (o ? "q" : "z") + std::to_string(++seq); note("local publish %s", pl.c_str()); bool expect = st == Up || (persist && had); if (expect && (o || st == Up)) may.insert(pl); if (expect && o && persist) must.push_back(pl); size_t b = times.count(pl); REQUIRE(P.publish("out/x", pl, o), "setup", "P"); REQUIRE(L.publishes().size() == 1, "setup", "L"); (void)b; collect(false); if (st == Up) REQUIRE(times[pl] == 1, "outward", "%s isn't forwarded", pl.c_str()); break; }
        case 2: { if (st != Up) prune(); note("the other end publishes"); std::string pl = "r" + std::to_string(++seq); REQUIRE(r.give("in/x", pl, 1), "inward", "not acknowledged"); auto g = L.publishes(); REQUIRE(g.size() == 1 && g[0].payload == pl && g[0].topic == "in/x", "inward", "L gets %zu", g.size()); break; }
        case 3: if (unacked.empty()) prune(); note("the other end acknowledges"); collect(true); break;
        case 4: if (st == Gone) prune(); note("connection lost%s", st == Wait ? " before CONNACK" : ""); r.close(choose(2, "reset")); if (st == Wait) fails++; lost(); settle(); break;
        case 5: if (st != Wait) prune(); note("refused"); r.raw(connack(ver, false, ver == 5 ? 0x88 : 3)); settle(); advance(100); REQUIRE(r.closed(), "refused", "connection kept"); fails++; lost(); break;
        case 6: { if (st != Gone) prune(); bool refused = choose(2, "refused"); note("wait%s", refused ? ", connections refused" : ""); if (refused) { refuse["10.9.9.9"] = ECONNREFUSED; advance(12000, 1000); refuse.clear(); fails++; taken = sim::outgoing().size(); break; } bool quick = next(r, ver, 12000); REQUIRE(quick || (fails && next(r, ver, 75000)), "again", "the bridge doesn't connect again (%d failures)", fails); REQUIRE(r.con.co.id == id && r.con.co.clean == !persist, "again", "it connects as %s", r.con.co.id.c_str()); st = Wait; break; }
        case 7: if (st != Wait) prune(); { bool sp = persist && had && !choose(2, "session lost there"); note("CONNACK, session present %d", sp); login(sp); if (!sp) { /* what is underway may be dropped when the other end lost the session */ for (auto &m : must) (void)m; must.clear(); } auto sub = r.pop(SUBSCRIBE); REQUIRE(sub && sub->filters.size() == 1 && sub->filters[0].f == "in/#", "subscribe", "after connecting %s, the bridge doesn't subscribe", had ? "again" : ""); r.raw(suback(ver, sub->id, {1})); settle(); collect(false); for (auto &m : must) if (!done_q1.count(m)) { bool f = false; for (auto &u : unacked) f |= u.second == m; REQUIRE(f, "lost", "%s was not sent after reconnecting to a session that was kept", m.c_str()); } break; }
        case 8: if (!(st == Up && !shake)) prune(); note("the other end sends something invalid"); r.raw(ver == 5 ? std::string("\x32\x03\0\1\0", 5) : std::string("\x30\0", 2)); settle(); advance(100); REQUIRE(r.closed(), "invalid", "connection kept"); REQUIRE(L.publishes().empty(), "invalid", "message delivered"); r.pump(); r.rx.clear(); lost(); break;
        }
        if (st != Gone) collect(false); REQUIRE(s.running() && P.ping(), "alive", "server in trouble"); state(std::to_string(st) + std::to_string(may.size()) + std::to_string(unacked.size()) + std::to_string(fails));
    }
    // in the end it works
    if (st == Gone) { REQUIRE(next(r, ver, 12000) || (fails && next(r, ver, 75000)), "again", "the bridge doesn't connect in the end (%d failures)", fails); st = Wait; } bool was_wait = st == Wait; if (was_wait) { login(false); REQUIRE(r.ack_sub(), "subscribe", "no SUBSCRIBE in the end"); } collect(true); REQUIRE(P.publish("out/x", "end", 1), "setup", "P"); may.insert("end"); collect(false); REQUIRE(times["end"] == 1, "outward", "in the end nothing is forwarded"); L.all(); REQUIRE(r.give("in/x", "end2", 0), "inward", "no"); auto g = L.publishes(false); REQUIRE(g.size() == 1 && g[0].payload == "end2", "inward", "in the end nothing comes in"); REQUIRE(sys("fmqbridge/connected") == "1", "state", "shown as not connected");
    std::string last; int ln = 0; for (auto &p : got_all) if (!p.dup) { int n = atoi(p.payload.c_str() + 1); REQUIRE(p.payload == "end" || n > ln, "order", "%s after %s", p.payload.c_str(), last.c_str()); ln = n; last = p.payload; }
    count("histories");
}

// 4. Reload with another configuration.
static void reload()
{
    bool persist = choose(2, "sessions"); std::string base = persist ? "local_clean_start false\nlocal_session_expiry_interval 1000\nremote_clean_start false\n" : ""; auto B = [&](const std::string &x, const std::string &addr = "10.9.9.9") { return bridge(5, base + x, addr); };
    network(); Server s; REQUIRE(s.start(B("subscribe in/# 1\npublish out/# 1\n")), "boot", "no"); Rem r; REQUIRE(next(r, 5), "connect", "no"); std::string id = r.con.co.id; bool acc = !choose(2, "before CONNACK"); if (acc) { r.accept(); REQUIRE(r.ack_sub(), "subscribe", "no"); } Cl L("L", 4); REQUIRE(L.connect() && L.subscribe({{"in/#", 1}, {"in2/#", 1}}), "setup", "no");
    int how = choose(7, "change"); std::string nc, f = "in/#"; static const char *W[] = {"nothing", "subscribe", "publish", "qos", "address", "removed", "prefix added"}; note("changed: %s", W[how]); std::string pubt = "out/x", dest = "10.9.9.9", rp;
    switch (how) { case 0: nc = B("subscribe in/# 1\npublish out/# 1\n"); break; case 1: nc = B("subscribe in2/# 1\npublish out/# 1\n"); f = "in2/#"; break; case 2: nc = B("subscribe in/# 1\npublish out2/# 1\n"); pubt = "out2/x"; break; case 3: nc = B("subscribe in/#\npublish out/#\n"); break; case 4: dest = "10.9.9.7"; nc = B("subscribe in/# 1\npublish out/# 1\n", dest); break; case 5: nc = ""; break; case 6: nc = B("subscribe in/# 1\npublish out/# 1\nremote_prefix rp/\n"); rp = "rp/"; break; }
    s.write_conf(nc); s.reload(); advance(300); 
    if (how == 0) { REQUIRE(!r.closed() && sim::outgoing().size() == taken, "unchanged", "an unchanged bridge reconnects"); if (!acc) { r.accept(); REQUIRE(r.ack_sub(), "subscribe", "no"); } }
    else if (how == 5) { REQUIRE(r.closed() || !acc, "removed", "the connection of a bridge that was removed stays"); advance(20000, 1000); REQUIRE(r.closed(), "removed", "the connection of a bridge that was removed stays"); REQUIRE(sim::outgoing().size() == taken, "removed", "a removed bridge connects"); REQUIRE(L.publish("out/x", "m", 1), "setup", "no"); s.write_conf(B("subscribe in/# 1\npublish out/# 1\n")); s.reload(); REQUIRE(next(r, 5, 12000), "added", "a bridge that was added doesn't connect"); r.accept(); REQUIRE(r.ack_sub(), "added", "no"); }
    else { Rem n; REQUIRE(next(n, 5, 12000), "changed", "the changed bridge doesn't connect"); REQUIRE(n.c->dest == dest, "changed", "it connects to %s", n.c->dest.c_str()); REQUIRE(n.con.co.id == id, "changed", "with another client id"); advance(1000); REQUIRE(r.closed(), "old", "the old connection of a changed bridge stays (%s)", acc ? "after CONNACK" : "before CONNACK"); n.accept(); auto sub = n.ack_sub(); REQUIRE(sub && sub->filters.size() == 1 && sub->filters[0].f == f, "changed", "it subscribes to something else"); r = n; }
    advance(7000, 1000); REQUIRE(sim::outgoing().size() == taken && !r.closed(), "stable", "another connection"); REQUIRE(L.publish(pubt, "m1", 1), "setup", "no"); auto g = r.publishes(); REQUIRE(g.size() == 1 && g[0].topic == rp + pubt && g[0].qos == (how == 3 ? 0 : 1), "outward", "the other end gets %zu messages", g.size()); std::string in = f.substr(0, f.size() - 1) + "x"; REQUIRE(r.give(in, "m2", 1), "inward", "no"); REQUIRE(L.publishes().size() == 1, "inward", "no"); if (how == 2 && !persist) { REQUIRE(L.publish("out/x", "m3", 1), "setup", "no"); REQUIRE(r.publishes().empty(), "outward", "still forwards what it no longer should"); }
    REQUIRE(sys("fmqbridge/connected") == "1", "state", "shown as not connected"); count("reloads"); state(W[how]);
}

// 5. Getting a connection at all: names, addresses, refusals, sockets that hang.
static void connecting()
{
    network(); dns["remote.example"] = {"10.9.9.1", "10.9.9.2"}; int k = choose(8, "trouble"); static const char *W[] = {"none", "first address refused", "both refused", "name unknown", "name unknown for long", "no answer to connect", "refused for long", "connect fails at once"}; note("%s", W[k]); bool longer = k == 4 || k == 6;
    switch (k) { case 1: refuse["10.9.9.1"] = ECONNREFUSED; break; case 2: case 6: refuse["10.9.9.1"] = refuse["10.9.9.2"] = ECONNREFUSED; break; case 3: case 4: dns_err = -2; break; case 5: refuse["10.9.9.1"] = EINPROGRESS; break; case 7: refuse["10.9.9.1"] = refuse["10.9.9.2"] = ENETUNREACH; break; }
    int ver = 4 + choose(2, "version"); Server s; REQUIRE(s.start(bridge(ver, "subscribe in/# 1\npublish out/# 1\nkeepalive 10\n", "remote.example")), "boot", "no"); Cl L("L", 4); REQUIRE(L.connect(), "setup", "no"); Rem r; bool up = next(r, ver, k == 1 ? 75000 : 7000); REQUIRE(up == (k <= 1), "connect", "%s: %s", W[k], up ? "connected" : "no connection");
    if (!up) { REQUIRE(L.publish("out/x", "m0", 1), "alive", "no"); if (longer) { size_t n0 = sim::outgoing().size() + dns_asked; advance(3600000, 5000); size_t n = sim::outgoing().size() + dns_asked - n0; REQUIRE(n >= 5 && n < 200, "attempts", "%zu attempts in an hour", n); } else if (k == 5) { advance(60000, 1000); } REQUIRE(sys("fmqbridge/connected") == "0", "state", "shown as connected"); refuse.clear(); dns_err = 0; taken = sim::outgoing().size(); REQUIRE(next(r, ver, longer ? 370000 : 75000), "again", "no connection when possible again"); }
    r.accept(); REQUIRE(r.ack_sub(), "subscribe", "no"); REQUIRE(L.publish("out/x", "m1", 1), "setup", "no"); auto g = r.publishes(); REQUIRE(g.size() == 1 && g[0].payload == "m1", "outward", "%zu", g.size()); refuse.clear(); r.close(); Rem r2; REQUIRE(next(r2, ver, 12000), "again", "no quick reconnection after a good connection"); count("ways to connect"); state(W[k]);
}

// 6. Several connections for one bridge: everything once.
static void group()
{
    network(); Server s; int n = 2 + choose(2, "connections"); bool pre = choose(2, "prefix"); REQUIRE(s.start(bridge(5, "subscribe in/# 1\npublish out/# 1\nconnection_count " + std::to_string(n) + "\n" + (pre ? "remote_prefix rp/\n" : ""))), "boot", "no"); std::vector<Rem> r(n); std::set<std::string> ids; std::string share, gid; for (auto &x : r) REQUIRE(next(x, 5), "connect", "fewer than %d connections", n);
    for (auto &x : r) { ids.insert(x.con.co.id); auto g = std::string(); for (auto &p : x.con.co.props) if (p.id == P_USER && p.s == "fmq_client_group_id") g = p.s2; REQUIRE(!g.empty() && (gid.empty() || gid == g), "group", "the connections don't name the same group"); gid = g; x.accept(); auto sub = x.ack_sub(); REQUIRE(sub && sub->filters.size() == 1 && sub->filters[0].f.rfind("$share/", 0) == 0 && sub->filters[0].f.size() > 12 && sub->filters[0].f.substr(sub->filters[0].f.size() - 5) == "/in/#", "group", "subscription %s", sub ? sub->txt().c_str() : "none"); REQUIRE(share.empty() || share == sub->filters[0].f, "group", "different share names"); share = sub->filters[0].f; } REQUIRE((int)ids.size() == n, "group", "client ids are the same"); advance(6000, 1000); REQUIRE(sim::outgoing().size() == taken, "group", "another connection");
    Cl L("L", 4), P("P", 4), P2("P2", 5); REQUIRE(L.connect() && L.subscribe({{"#", 1}}) && P.connect() && P2.connect(), "setup", "no"); int depth = param("gdepth", thorough() ? 4 : 3); std::map<std::string, int> from; std::vector<bool> up(n, true);
    for (int d = 0; d < depth; d++) { int o = choose(4, "op"); if (o < 2) { auto &x = o ? P2 : P; bool ret = choose(2, "retain"); std::string pl = "m" + std::to_string(d); REQUIRE(x.publish("out/x", pl, 1, ret), "setup", "no"); int c = 0, who = -1; for (int i = 0; i < n; i++) if (up[i]) for (auto &p : r[i].publishes()) { if (p.payload != pl) continue; c++; who = i; REQUIRE(p.topic == (pre ? "rp/out/x" : "out/x") && p.retain == ret, "outward", "%s", p.txt().c_str()); } bool any = false; for (bool u : up) any |= u; REQUIRE(c == any, "once", "the message of one client goes out %d times", c); if (from.count(x.name) && up[from[x.name]]) REQUIRE(from[x.name] == who, "order", "the messages of one client go over different connections"); from[x.name] = who; REQUIRE(L.publishes().size() == 1, "setup", "L"); }
        else if (o == 2) { int i = choose(n, "connection"); if (!up[i]) prune(); bool like_out = choose(2, "matching publish"); L.all(); REQUIRE(r[i].give(like_out ? (pre ? "rp/out/y" : "out/y") : "in/y", "r", 1), "inward", "no"); REQUIRE(L.publishes().size() == 1, "inward", "not exactly once"); for (int j = 0; j < n; j++) if (up[j]) { auto b = r[j].publishes(); REQUIRE(b.empty(), "loop", "a message comes back to where it came from over %s connection: %s", i == j ? "the same" : "another", b[0].txt().c_str()); } }
        else { int i = choose(n, "connection"); if (!up[i]) prune(); r[i].close(); Rem x; std::string id = r[i].con.co.id; REQUIRE(next(x, 5, 12000), "again", "a lost connection isn't made again"); REQUIRE(x.con.co.id == id, "again", "it is another one"); x.accept(); REQUIRE(x.ack_sub(), "again", "no"); advance(300); x.publishes(); r[i] = x; } }
    count("groups"); state(std::to_string(n));
}

// 7. A saved client id, sessions and queues over a restart.
static void saved()
{
    network(); bool use = choose(2, "use_saved_clientid"), persist = choose(2, "sessions"); int stop = choose(2, "stopped how"); std::string conf = "storage_dir /mcfs/store\n" + bridge(5, std::string(use ? "use_saved_clientid true\n" : "") + (persist ? "local_clean_start false\nlocal_session_expiry_interval 10000\nremote_clean_start false\nremote_session_expiry_interval 10000\n" : "") + "subscribe in/# 1\npublish out/# 1\n"); Server s; REQUIRE(s.start(conf), "boot", "no"); Rem r; REQUIRE(next(r, 5), "connect", "no"); std::string id = r.con.co.id; r.accept(); REQUIRE(r.ack_sub(), "subscribe", "no"); Cl P("P", 4); REQUIRE(P.connect() && P.publish("out/x", "m1", 1), "setup", "no"); settle(); r.pump(); auto p = r.pop(PUBLISH); REQUIRE(p && p->payload == "m1", "outward", "no"); bool was_off = choose(2, "bridge offline at the end"); if (was_off) { refuse["10.9.9.9"] = ECONNREFUSED; r.close(); REQUIRE(P.publish("out/x", "m2", 1), "setup", "no"); }
    if (stop == 0) REQUIRE(s.stop(), "stop", "no"); else { advance(3700000, 10000); s.crash(); } refuse.clear(); sim::clear_crashed(); taken = sim::outgoing().size(); Server s2; REQUIRE(s2.start(conf), "boot", "second start"); Rem n; REQUIRE(next(n, 5), "connect", "not after the restart"); bool kept = use && persist; REQUIRE((n.con.co.id == id) == use, "clientid", "client id %s, was %s", n.con.co.id.c_str(), id.c_str()); n.accept(kept); REQUIRE(n.ack_sub(), "subscribe", "no"); auto g = n.publishes(); std::vector<std::string> got, want; for (auto &x : g) got.push_back(x.payload); if (kept) { want.push_back("m1"); if (was_off) want.push_back("m2"); } if (stop == 0 || !kept) REQUIRE(got == want, "queue", "after the restart the bridge sends %s instead of %s", str_of(got).c_str(), str_of(want).c_str());
    Cl Q("Q", 4); REQUIRE(Q.connect() && Q.publish("out/x", "m3", 1), "setup", "no"); auto h = n.publishes(); REQUIRE(h.size() == 1 && h[0].payload == "m3", "outward", "%zu", h.size()); count("restarts"); state(id == n.con.co.id ? "same" : "new");
}

CHECK(P29, "")
{
    taken = 0; int part = param("part", -1); if (part < 0) part = choose(7, "part"); switch (part) { case 0: greeting(); break; case 1: message(); break; case 2: traffic(); break; case 3: reload(); break; case 4: connecting(); break; case 5: group(); break; case 6: saved(); break; } done();
}
