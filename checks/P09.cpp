// P09 Topic access rules are enforced for write and read.
#include "mqtt.h"
#include "model.h"
#include <cstring>
using namespace mc;
using namespace mq;
struct Rule { int scope; int grant; std::string f; }; // scope 0 anonymous, 1 alice, 2 bob, 3 pattern; grant 0 none written, 1 read, 2 write, 3 readwrite, 4 deny
static const char *G[] = {"", "read ", "write ", "readwrite ", "deny "};
static const char *T[] = {"a", "a/b", "a/b/c", "alice", "alice/a", "%u", "%u/a", "A1", "$x/a", "/a", "a/", "alice/A1", "bob/a", "N1", ""};
struct Who { const char *id, *user; }; static const Who W[] = {{"N1", nullptr}, {"A1", "alice"}, {"B1", "bob"}};
static bool acl_match(const Rule &r, const Who &w, const std::string &topic)
{
    auto f = model::split(r.f), t = model::split(topic);
    for (size_t i = 0;; i++) {
        if (i < f.size() && f[i] == "#") return true;
        if (i == f.size() || i == t.size()) return i == f.size() && i == t.size();
        std::string x = f[i]; if (r.scope == 3 && x == "%u") { if (!w.user || t[i] != w.user) return false; continue; } if (r.scope == 3 && x == "%c") { if (t[i] != w.id) return false; continue; }
        if (x != "+" && x != t[i]) return false;
    }
}
static bool allowed(const std::vector<Rule> &rules, const Who &w, const std::string &topic, bool write)
{
    bool ok = false; int me = !w.user ? 0 : !strcmp(w.user, "alice") ? 1 : 2;
    for (auto &r : rules) { if (r.scope != 3 && r.scope != me) continue; if (!acl_match(r, w, topic)) continue; if (r.grant == 4) return false; if (r.grant == 0 || r.grant == 3 || r.grant == (write ? 2 : 1)) ok = true; }
    return ok;
}
static std::string text(const std::vector<Rule> &rules, bool helpers = true)
{
    std::string s = "# rules\n\n"; for (auto &r : rules) if (r.scope == 0) s += std::string("topic ") + G[r.grant] + r.f + "\n";
    for (int u = 1; u < 3; u++) { bool any = false; for (auto &r : rules) if (r.scope == u) { if (!any) s += u == 1 ? "user alice\n" : "user bob\n"; any = true; s += std::string("topic ") + G[r.grant] + r.f + "\n"; } }
    if (helpers) s += "user obs\ntopic read #\nuser wr\ntopic write #\n"; for (auto &r : rules) if (r.scope == 3) s += std::string("pattern ") + G[r.grant] + r.f + "\n"; return s;
}
static Cl mk(const Who &w, int ver) { Cl c(w.id, ver); if (w.user) { c.o.user = w.user; c.o.pass = "p"; } return c; }
static Who OBS = {"O", "obs"}, WR = {"P", "wr"};
static const char *CONF = "mosquitto_acl_file /mcfs/acl\n";
static std::vector<Pkt> msgs(Cl &c) { std::vector<Pkt> v; for (auto &k : c.publishes()) if (k.topic.compare(0, 4, "$SYS")) v.push_back(k); return v; }
// everything about one set of rules
static void judge(const std::vector<Rule> &rules, int ver, int kind)
{
    bool helper_hit = false; for (auto &r : rules) if (r.scope == 3 && r.grant == 4) helper_hit = true; // pattern denials concern the helpers as well
    auto can = [&](const Who &w, const char *t, bool wr) { if (w.user && !strcmp(w.user, "obs")) { if (wr) return allowed(rules, w, t, wr); for (auto &r : rules) if (r.scope == 3 && r.grant == 4 && acl_match(r, w, t)) return false; return true; } if (w.user && !strcmp(w.user, "wr")) { for (auto &r : rules) if (r.scope == 3 && r.grant == 4 && acl_match(r, w, t)) return false; return wr || allowed(rules, w, t, false); } return allowed(rules, w, t, wr); };
    (void)helper_hit;
    if (kind < 3) { // writing: QoS 0..2 / retained
        Cl o = mk(OBS, 5); REQUIRE(o.connect() && o.subscribe({{"#", 2, false, true}, {"$x/#", 2, false, true}}), "connect", "O"); 
        for (auto &w : W) {
            Cl c = mk(w, ver); REQUIRE(c.connect(), "connect", "%s", w.id); int n = 0;
            for (auto t : T) {
                if (!*t) break; bool ok = can(w, t, true), vis = ok && can(OBS, t, false) && t[0] != '$'; std::string p = std::string(w.id) + std::to_string(n++); bool ret = kind == 2; int q = ret ? 1 : kind ? 1 + (n & 1) : 0;
                unsigned id = 100 + n; c.pub(t, p, q, ret, {}, id); settle(); if (q) { auto a = c.pop(q == 1 ? PUBACK : PUBREC); REQUIRE(a && a->id == id, "not-acknowledged", "%s publishing to %s", w.id, t); if (ver == 5 && t[0] != '$') REQUIRE((a->rc >= 0x80) == !ok, "ack-code", "%s publishing to %s: code %d", w.id, t, a->rc); if (q == 2 && a->rc < 0x80) { c.raw(ack(ver, PUBREL, id)); settle(); REQUIRE(c.pop(PUBCOMP), "not-acknowledged", "no PUBCOMP"); } }
                auto v = msgs(o); REQUIRE(v.size() == (vis ? 1u : 0u) && (!vis || (v[0].topic == t && v[0].payload == p)), ok ? "write-denied" : "write-allowed", "%s (%s) publishing to %s: %zu delivered", w.id, w.user ? w.user : "anonymous", t, v.size()); count("writes");
                if (ret) { Cl n2 = mk({"O2", "obs"}, 4); REQUIRE(n2.connect() && n2.subscribe({{t, 1}}), "connect", "O2"); settle(); auto z = msgs(n2); bool rv = ok && can(OBS, t, false); REQUIRE(z.size() == (rv ? 1u : 0u) || (t[0] == 0x24 && rv), "retained-write", "%s publishing retained to %s: %zu found", w.id, t, z.size()); n2.disconnect(); settle(); if (rv) { c.pub(t, "", 1, true, {}, 99); settle(); c.pop(PUBACK); msgs(o); } }
            }
            REQUIRE(!c.closed() && c.ping(), "closed", "%s was closed", w.id); c.disconnect(); settle();
        }
    } else if (kind < 6) { // reading: live, retained, queued
        Cl p = mk(WR, 4); REQUIRE(p.connect(), "connect", "P"); std::vector<Cl> cs; for (auto &w : W) { Cl c = mk(w, ver); c.o.clean = kind != 5; if (kind == 5 && ver == 5) c.o.props = {pn(P_SESSEXP, 1000)}; REQUIRE(c.connect(), "connect", "%s", w.id); std::vector<int> codes; if (kind != 4) { REQUIRE(c.subscribe({{"#", 1}}, {}, &codes) && codes[0] == 1, "suback", "no"); } if (kind == 5) { c.close(); settle(); } cs.push_back(c); }
        for (auto t : T) if (*t && *t != '$') REQUIRE(p.publish(t, std::string("p-") + t, 1, kind == 4), "publish", "no");
        for (int i = 0; i < 3; i++) {
            Cl &c = cs[i]; if (kind == 4) { REQUIRE(c.subscribe({{"#", 1}}), "suback", "no"); advance(60); } if (kind == 5) { REQUIRE(c.connect(), "connect", "again"); }
            std::set<std::string> got, want; for (auto &k : msgs(c)) REQUIRE(got.insert(k.topic).second && k.payload == "p-" + k.topic, "double", "%s", k.txt().c_str()); for (auto t : T) if (*t && *t != '$' && can(WR, t, true) && can(W[i], t, false)) want.insert(t);
            for (auto &t : got) REQUIRE(want.count(t), "read-allowed", "%s (%s) received %s", W[i].id, W[i].user ? W[i].user : "anonymous", t.c_str()); for (auto &t : want) REQUIRE(got.count(t), "read-denied", "%s (%s) did not receive %s", W[i].id, W[i].user ? W[i].user : "anonymous", t.c_str()); count("reads", want.size());
        }
    } else { // wills: immediate, delayed
        Cl o = mk(OBS, 4); REQUIRE(o.connect() && o.subscribe({{"#", 1}}), "connect", "O");
        for (auto &w : W) for (auto t : T) {
            if (!*t || *t == '$') continue; Cl c = mk(w, ver); c.o.will = Will{t, "gone", 1, false, {}}; if (kind == 7) { if (ver < 5) prune(); c.o.will->props = {pn(P_WILLDELAY, 1)}; c.o.props = {pn(P_SESSEXP, 100)}; }
            REQUIRE(c.connect(), "connect", "%s", w.id); c.close(); settle(); if (kind == 7) advance(4000, 1000);
            bool vis = can(w, t, true) && can(OBS, t, false); auto v = msgs(o); REQUIRE(v.size() == (vis ? 1u : 0u), vis ? "will-denied" : "will-allowed", "will of %s (%s) for %s: %zu delivered", w.id, w.user ? w.user : "anonymous", t, v.size()); count("wills");
        }
    }
}
static const char *F[] = {"a", "#", "a/b", "+", "a/#", "%u/a", "%c", "a/+", "+/b", "%u/#", "%u", "/a", "%u/%c", "+/+/c", "a/", "+/%u"};
CHECK(P09, "")
{
    Server s; 
    switch (choose(4, "part")) {
    case 0: { // one rule, everything
        Rule r{choose(4, "scope"), choose(5, "grant"), F[choose(16, "filter")]}; std::vector<Rule> rules = {r}; int ver = choose(2, "version") ? 5 : 4, kind = choose(8, "kind"); note("%s", text(rules).c_str());
        sim::fs::put("/mcfs/acl", text(rules)); s.start(CONF); judge(rules, ver, kind); break;
    }
    case 1: { // two rules (thorough: three)
        std::vector<Rule> rules; int n = thorough() ? 3 : 2; for (int i = 0; i < n; i++) rules.push_back({choose(4, "scope"), 1 + choose(4, "grant"), F[choose(thorough() ? (i == 2 ? 4 : 10) : i ? 6 : 8, "filter")]});
        if (!thorough() && rules[0].scope != rules[1].scope && rules[0].scope != 3 && rules[1].scope != 3) prune();
        if (!thorough() && rules[0].scope == 0 && rules[1].scope == 0) prune();
        if (choose(2, "order")) { if (rules[0].scope != rules[1].scope) prune(); std::swap(rules[0], rules[1]); } int kind = choose(3, "kind"); int k = kind == 0 ? 1 : kind == 1 ? 3 : 4; if (!thorough() && k == 4 && rules[0].scope != 3) prune(); note("%s", text(rules).c_str());
        sim::fs::put("/mcfs/acl", text(rules)); s.start(CONF); judge(rules, 5, k); break;
    }
    case 2: { // the file changes; a bad one changes nothing
        static const char *BAD[] = {"topic\n", "topic foo a\n", "bogus a\n", "topic readwrite a#\n", "user\n", "topic readwrite a/#/b\n", "pattern readwrite +a\n"}; int bad = choose(8, "bad file"); std::vector<Rule> r1 = {{choose(4, "scope"), 3, "a"}}, r2 = {{choose(4, "scope"), 1 + choose(4, "grant"), choose(2, "filter") ? "a/b" : "a"}}; int kind = choose(3, "kind"); kind = kind == 0 ? 1 : kind == 1 ? 3 : 5;
        bool gone = bad == 7 && choose(2, "removed"); bool first = choose(2, "at start"); if (gone && first) prune();
        auto put = [&](const std::vector<Rule> &r) { sim::fs::put("/mcfs/acl", text(r)); };
        if (first) { if (bad == 7) prune(); sim::fs::put("/mcfs/acl", text(r1) + BAD[bad]); s.start(CONF); note("bad file at start: %s", BAD[bad]); Cl o = mk(OBS, 4), c = mk(W[1], 5); REQUIRE(o.connect() && o.subscribe({{"#", 0}}) && c.connect(), "connect", "no"); c.pub("a", "x", 1); settle(); auto a = c.pop(PUBACK); REQUIRE(a && a->rc >= 0x80, "bad-file-allows", "publish accepted with an unreadable ACL file"); REQUIRE(msgs(o).empty(), "bad-file-allows", "delivered"); o.disconnect(); c.disconnect(); settle(); advance(3000); put(r2); advance(4000, 500); judge(r2, 5, kind); break; }
        put(r1); s.start(CONF); if (choose(2, "used")) judge(r1, 5, 1); int soon = choose(3, "changed after"); advance(soon == 0 ? 300 : soon == 1 ? 2500 : 10000, 100);
        if (bad < 7) { sim::fs::put("/mcfs/acl", text(r2) + BAD[bad]); note("bad: %s", BAD[bad]); advance(4000, 500); judge(r1, 5, kind); if (choose(2, "then good")) { put(r2); advance(4000, 500); judge(r2, 5, kind); } }
        else if (gone) { sim::fs::remove("/mcfs/acl"); note("removed"); advance(4000, 500); judge(r1, 5, kind); }
        else { put(r2); note("changed to %s", text(r2).c_str()); advance(4000, 500); judge(r2, 5, kind); if (choose(2, "changed again")) { advance(1200, 100); put(r1); advance(4000, 500); judge(r1, 5, kind); } }
        break;
    }
    case 3: { // messages and retained messages kept over a restart and the rights of their publisher or reader
        std::vector<Rule> rules = {{1, 3, "a/#"}, {2, 3, "a/#"}, {0, 3, "a/#"}}; sim::fs::put("/mcfs/acl", text(rules)); std::string conf = std::string(CONF) + "storage_dir /mcfs/store\n"; s.start(conf); int pi = choose(3, "publisher"), ri = choose(3, "reader"); if (pi == ri) prune(); bool ret = choose(2, "retained"); bool restart = choose(2, "restart"); int change = choose(4, "change"); // 0 none 1 reader loses reading 2 reader loses everything 3 unrelated
        Cl c = mk(W[ri], choose(2, "version") ? 5 : 4); c.o.clean = false; if (c.v5()) c.o.props = {pn(P_SESSEXP, 1000)}; REQUIRE(c.connect(), "connect", "c"); if (!ret) REQUIRE(c.subscribe({{"a/+", 2}}), "suback", "no"); c.close(); settle();
        Cl p = mk(W[pi], 5); REQUIRE(p.connect() && p.publish("a/b", "m", 2, ret), "publish", "no"); p.disconnect(); settle();
        if (restart) { REQUIRE(s.stop(), "stop", "no"); }
        std::vector<Rule> r2 = rules; for (auto &r : r2) if (r.scope == (ri == 0 ? 0 : ri) ) { if (change == 1) r.grant = 2; if (change == 2) r.grant = 4; } if (change == 3) r2.push_back({0, 4, "zz"}); sim::fs::put("/mcfs/acl", text(r2)); if (restart) REQUIRE(s.start(conf), "boot", "no"); else advance(6000, 500);
        REQUIRE(c.connect() && c.connack.sp, "connect", "again"); if (ret) REQUIRE(c.subscribe({{"a/b", 2}}), "suback", "no"); advance(60); auto v = msgs(c); bool lost = change == 1 || change == 2; note("publisher %s reader %s%s%s change %d", W[pi].id, W[ri].id, ret ? " retained" : "", restart ? " restart" : "", change);
        if (lost && !ret) { count("queued before the change"); break; } // was readable when it was queued
        REQUIRE(v.size() == (lost ? 0u : 1u), lost ? "kept-read-allowed" : "kept-lost", "%zu messages", v.size()); count("kept"); break;
    }
    }
}
