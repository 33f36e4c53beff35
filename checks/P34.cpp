// P34 Message content is the same for every receiver, way of delivery and protocol version.
#include "mqtt.h"
#include "model.h"
using namespace mc;
using namespace mq;
enum { LIVE, ALIAS, LIVE_RETAINED, RETAINED, QUEUED, RESENT, WILL, WILL_RETAINED, WILL_QUEUED, WILL_DELAYED, SHARED, R_RETAINED, R_QUEUED, R_RESENT, R_WILL, NWAYS };
static const char *wname[] = {"live", "live, alias", "live, retained", "retained", "queued offline", "resent", "will", "retained will", "queued will", "delayed will", "shared", "retained, restart", "queued, restart", "resent, restart", "will, restart"};
struct Msg { std::string topic, payload; Props pr; };
static Msg make(int ver, int subset, int users, int content)
{
    Msg m; m.topic = "t"; std::string all; for (int i = 0; i < 256; i++) all += char(i);
    static const char *topics[] = {"t", "t/a b/\xc3\xa9/\xf0\x9f\x98\x80", "t/", "t//x"}; m.topic = topics[content % 4];
    switch (content) { case 0: m.payload = "x"; break; case 1: m.payload = all; break; case 2: m.payload = std::string(3000, 'y') + (subset & 1 ? '.' : '\0'); break; case 3: m.payload = "\xff"; break; }
    if (ver < 5) return m;
    auto add = [&](int bit, Prop p) { if (subset >> bit & 1) m.pr.push_back(p); };
    auto addusers = [&] { if (users == 1) m.pr.push_back(pu("k", "v")); if (users == 2) { m.pr.push_back(pu("k", "2")); m.pr.push_back(pu("a", "1")); m.pr.push_back(pu("k", "2")); m.pr.push_back(pu("k", "0")); } if (users == 3) { m.pr.push_back(pu("", "")); m.pr.push_back(pu("a", "")); m.pr.push_back(pu("", "b")); m.pr.push_back(pu("\xc3\xa9", std::string(300, 'u'))); } };
    if (content & 1) addusers();
    add(0, pn(P_PFI, 1)); add(1, ps(P_CTYPE, content == 1 ? "" : content == 2 ? std::string(200, 'c') : "text/plain"));
    add(2, ps(P_RESPTOPIC, content == 2 ? std::string(130, 'r') : "re/sp")); add(3, ps(P_CORR, content == 1 ? "" : content == 2 ? all : std::string("\0\xff" "c", 3)));
    if (subset >> 4 & 1) m.pr.push_back(pn(P_EXPIRY, 70000));
    if (!(content & 1)) addusers();
    return m;
}
static std::string canon(const Props &p)
{
    std::string r; auto one = [&](int id) { for (auto &x : p) if (x.id == id && !(id == P_PFI && x.num == 0)) r += std::to_string(id) + "=" + (id == P_PFI ? std::to_string(x.num) : hex(x.s, 5000)) + ";"; };
    one(P_PFI); one(P_CTYPE); one(P_RESPTOPIC); one(P_CORR); for (auto &x : p) if (x.id == P_USER) r += "u " + hex(x.s, 5000) + "=" + hex(x.s2, 5000) + ";"; return r;
}
static void judge(Cl &c, const std::vector<Pkt> &v, const Msg &m, int way, int qos, bool retained, size_t copies = 1)
{
    REQUIRE(c.decode_error.empty(), "malformed", "%s: %s", c.name.c_str(), c.decode_error.c_str());
    REQUIRE(v.size() == copies, "lost", "%s: %s got %zu copies", wname[way], c.name.c_str(), v.size());
    for (auto &p : v) {
        count("compared");
        REQUIRE(p.topic == m.topic, "topic", "%s: %s got topic '%s'", wname[way], c.name.c_str(), p.topic.c_str());
        REQUIRE(p.payload == m.payload, "payload", "%s: %s got a payload of %zu bytes: %s", wname[way], c.name.c_str(), p.payload.size(), hex(p.payload, 40).c_str());
        REQUIRE(p.qos == qos, "qos", "%s: %s got QoS %d instead of %d", wname[way], c.name.c_str(), p.qos, qos);
        if (!c.v5()) { REQUIRE(p.props.empty(), "properties", "properties for MQTT 3"); continue; }
        std::string a = canon(p.props), b = canon(m.pr); REQUIRE(a == b, "properties", "%s: %s got %s instead of %s", wname[way], c.name.c_str(), a.c_str(), b.c_str());
        for (auto &x : p.props) REQUIRE(x.id == P_PFI || x.id == P_CTYPE || x.id == P_RESPTOPIC || x.id == P_CORR || x.id == P_USER || x.id == P_EXPIRY || x.id == P_SUBID || (x.id == P_ALIAS && c.name == "A"), "extra", "property %d", x.id);
        auto e = find(p.props, P_EXPIRY); if (find(m.pr, P_EXPIRY)) REQUIRE(e && e->num <= 70000 && e->num > 69500, "expiry", "%s: %s got expiry %u", wname[way], c.name.c_str(), e ? e->num : 0); else REQUIRE(!e || retained, "expiry", "%s: expiry %u appeared", wname[way], e->num);
        size_t subids = 0; for (auto &x : p.props) subids += x.id == P_SUBID; REQUIRE(subids == (c.name == "I"), "subid", "%s: %zu subscription identifiers", c.name.c_str(), subids);
    }
}
CHECK(P34, "")
{
    int way = choose(NWAYS, "way"), pv = 3 + choose(3, "publisher version"), qos = choose(3, "qos");
    int content = choose(4, "content"), subset = 0, users = 0;
    if (pv == 5) { subset = choose(32, "properties"); users = choose(4, "user properties"); }
    if ((way == QUEUED || way == RESENT || way == WILL_QUEUED || way == R_QUEUED || way == R_RESENT) && qos == 0) prune();
    if (way == ALIAS && pv < 5) prune();
    if ((subset & 1) && (content & 1)) prune(); // announced as UTF-8 but isn't
    if (!thorough() && pv == 5 && subset != 0 && subset != 31 && users != 2 && users != content % 4) prune();
    if (!thorough() && pv == 5 && __builtin_popcount(subset) > 1 && __builtin_popcount(subset) < 4 && content != subset % 4) prune();
    Msg m = make(pv, subset, users, content); bool willish = way == WILL || way == WILL_RETAINED || way == WILL_QUEUED || way == WILL_DELAYED || way == R_WILL;
    note("%s, publisher MQTT %d, QoS %d, properties %s, topic %s, %zu bytes", wname[way], pv, qos, canon(m.pr).c_str(), m.topic.c_str(), m.payload.size());
    Server srv; std::string conf = "storage_dir /mcfs/store\n"; REQUIRE(srv.start(conf), "boot", "no start");
    Cl p("P", pv); if (willish) { Props wp = m.pr; if (way == WILL_DELAYED || way == R_WILL) { if (pv < 5) prune(); wp.push_back(pn(P_WILLDELAY, 20)); p.o.props = {pn(P_SESSEXP, 1000)}; } p.o.will = Will{m.topic, m.payload, qos, way == WILL_RETAINED, wp}; }
    // receivers: MQTT 3.1, 3.1.1, 5, 5 with identifier, 5 with aliases, and for stored messages each version coming back as each
    std::vector<Cl> r; bool stored = way == QUEUED || way == RESENT || way == WILL_QUEUED || way == R_QUEUED || way == R_RESENT; std::vector<int> back;
    if (stored) { for (int a = 3; a <= 5; a++) for (int b = 3; b <= 5; b++) { r.emplace_back("S" + std::to_string(a) + std::to_string(b), a); back.push_back(b); } }
    else for (int a = 3; a <= 5; a++) { r.emplace_back("S" + std::to_string(a), a); back.push_back(a); }
    r.emplace_back("I", 5); back.push_back(5); r.emplace_back("A", 5); back.push_back(5);
    bool late = way == RETAINED || way == WILL_RETAINED || way == R_RETAINED;
    auto subscribe = [&](Cl &c) { Filter f; f.f = way == SHARED ? "$share/" + c.name + "/t/#" : "t/#"; f.qos = 2; Props pr; if (c.name == "I") pr = {pn(P_SUBID, 268435455)}; REQUIRE(c.subscribe({f}, pr), "suback", "%s", c.name.c_str()); };
    auto options = [&](Cl &c) { c.o.clean = false; c.o.props.clear(); if (c.v5()) { c.o.props = {pn(P_SESSEXP, 90000)}; if (c.name == "A") c.o.props.push_back(pn(P_ALIASMAX, 5)); } };
    for (auto &c : r) { options(c); REQUIRE(c.connect(), "connect", "%s", c.name.c_str()); if (!late) subscribe(c); }
    bool offline = way == QUEUED || way == WILL_QUEUED || way == R_QUEUED || way == R_WILL || way == R_RETAINED; if (offline) { for (auto &c : r) c.close(); settle(); }
    REQUIRE(p.connect(), "connect", "P"); size_t copies = 1;
    if (willish) p.close(); else if (way == ALIAS) { Props a = m.pr; a.push_back(pn(P_ALIAS, 3)); REQUIRE(p.publish(m.topic, m.payload, qos, false, a) && p.publish("", m.payload, qos, false, a), "publish", "not acknowledged"); copies = 2; }
    else REQUIRE(p.publish(m.topic, m.payload, qos, way == RETAINED || way == LIVE_RETAINED || way == R_RETAINED, m.pr), "publish", "not acknowledged");
    settle(); if (way == WILL_DELAYED) advance(24000);
    if (way == RESENT || way == R_RESENT) for (auto &c : r) { c.pump(); size_t n = 0; for (auto &x : c.rx) n += x.type == PUBLISH; REQUIRE(n == 1, "lost", "%zu to %s", n, c.name.c_str()); c.close(); } settle();
    if (way >= R_RETAINED) { if (way == R_WILL) advance(3000); REQUIRE(srv.stop(), "stop", "no clean exit"); advance(1000); REQUIRE(srv.start(conf), "boot", "no restart"); }
    if (way == R_WILL) { for (auto &c : r) { c.rbuf.clear(); c.rx.clear(); REQUIRE(c.connect(), "connect", "%s", c.name.c_str()); } advance(24000); }
    else if (offline || way == RESENT || way == R_RESENT) for (size_t i = 0; i < r.size(); i++) { Cl &c = r[i]; c.o.ver = back[i]; options(c); if (c.o.ver == 5) c.o.keepalive = 60000; c.rbuf.clear(); c.rx.clear(); c.aliases.clear(); REQUIRE(c.connect(), "connect", "%s", c.name.c_str()); }
    if (late) { for (auto &c : r) subscribe(c); advance(100); }
    for (auto &c : r) { auto v = c.publishes(); judge(c, v, m, way, qos, late || way == LIVE_RETAINED, copies); }
}
