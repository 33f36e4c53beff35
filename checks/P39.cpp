// P39 Protocol violations end that connection only.
#include "valid.h"
#include <fcntl.h>
#include <unistd.h>
using namespace mc;
using namespace mq;
struct Base { const char *name; int ver; std::string p; };
static ConnectOpts co(int ver, bool rich) { ConnectOpts o; o.ver = ver; o.id = "X"; o.clean = false; o.keepalive = 60; if (rich) { o.user = "u"; o.pass = "p"; o.will = Will{"w/x", "gone", 1, true, ver == 5 ? Props{pn(P_WILLDELAY, 0), pn(P_PFI, 0), pn(P_EXPIRY, 9), ps(P_CTYPE, "c"), ps(P_RESPTOPIC, "r"), ps(P_CORR, "d"), pu("k", "v")} : Props{}}; if (ver == 5) o.props = {pn(P_SESSEXP, 100), pn(P_RECVMAX, 5), pn(P_MAXPKT, 1000), pn(P_ALIASMAX, 5), pn(P_REQRESP, 0), pn(P_REQPROB, 1), pu("k", "v")}; } return o; }
static std::vector<Base> bases(bool connects)
{
    std::vector<Base> v; for (int ver : {3, 4, 5}) { bool f = ver == 5; if (connects) { v.push_back({"CONNECT", ver, mq::connect(co(ver, false))}); v.push_back({"CONNECT with everything", ver, mq::connect(co(ver, true))}); continue; }
        v.push_back({"PUBLISH 0", ver, mq::publish(ver, "t/1", "payload", 0)}); v.push_back({"PUBLISH 1", ver, mq::publish(ver, "t/1", "pp", 1, 7, true, true)}); v.push_back({"PUBLISH 2", ver, mq::publish(ver, "t/1", "", 2, 8)}); if (f) v.push_back({"PUBLISH with everything", ver, mq::publish(ver, "t", "p", 1, 9, false, false, {pn(P_PFI, 0), pn(P_EXPIRY, 9), pn(P_ALIAS, 1), ps(P_RESPTOPIC, "r"), ps(P_CORR, "d"), pu("k", "v"), ps(P_CTYPE, "c")})});
        v.push_back({"SUBSCRIBE", ver, mq::subscribe(ver, 5, {{"t/+", 1}, {"u/#", 2}})}); v.push_back({"UNSUBSCRIBE", ver, mq::unsubscribe(ver, 6, {"t/+", "x"})}); if (f) { v.push_back({"SUBSCRIBE with everything", ver, mq::subscribe(ver, 5, {{"$share/g/t", 1}, {"u", 2, true, true, 2}}, {pn(P_SUBID, 300), pu("k", "v")})}); v.push_back({"UNSUBSCRIBE with everything", ver, [] { std::string b = u16(6) + props({pu("k", "v")}) + str("t"); return packet(UNSUBSCRIBE, 2, b); }()}); }
        for (int t : {PUBACK, PUBREC, PUBREL, PUBCOMP}) { v.push_back({tname(t), ver, ack(ver, t, 1)}); if (f) v.push_back({tname(t), ver, ack(ver, t, 1, 0, {ps(P_REASON, "r"), pu("k", "v")})}); }
        v.push_back({"PINGREQ", ver, pingreq()}); v.push_back({"DISCONNECT", ver, mq::disconnect(ver)}); if (f) { v.push_back({"DISCONNECT with everything", ver, mq::disconnect(5, 4, {pn(P_SESSEXP, 50), ps(P_REASON, "r"), pu("k", "v")})}); v.push_back({"AUTH", ver, auth(0x18, {ps(P_AUTHMETHOD, "m"), ps(P_AUTHDATA, "d")})}); } }
    return v;
}
static void learn(const std::string &line) { if (const char *f = getenv("MC_LEARN")) { int fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0644); std::string l = line + "\n"; if (write(fd, l.data(), l.size())) {} ::close(fd); } }
// What the server is known to let pass without acting on it: nothing may change by it.
static bool ignored(const std::string &why) { auto has = [&](const char *x) { return why.find(x) != std::string::npos; }; if (why == "before CONNECT" || has("a server's packet") || why == "PINGREQ: more bytes than the packet has") return true; for (auto t : {"PUBACK", "PUBREC", "PUBREL", "PUBCOMP"}) if (why.rfind(t, 0) == 0 && (has("property") || has("properties") || has("reason code") || has("more bytes") || has("length") || has("too short") || has("UTF-8"))) return true; return false; }
// ... and what it takes as if it were fine.
static bool lenient(const std::string &why) { auto has = [&](const char *x) { return why.find(x) != std::string::npos; }; return has("not the shortest length") || has("property 1 neither 0 nor 1") || why == "SUBSCRIBE: reserved option bits" || why == "CONNECT: more bytes than the packet has" || why == "CONNECT: authentication data without method" || why.rfind("DISCONNECT: ", 0) == 0; }
// One attack: X sends bytes; everyone else must not notice.
struct World {
    Server s; Cl B{"B", 5}, O{"O", 4}, P{"P", 4}, X{"X"}; bool logged_in = false; valid::Ctx ctx;
    void start() { REQUIRE(s.start("max_incoming_topic_alias_value 3\nmax_packet_size 100000\n"), "boot", "no"); REQUIRE(B.connect() && B.subscribe({{"b/#", 1}, {"w/#", 1}, {"t/#", 0}}), "setup", "B"); O.o.clean = false; REQUIRE(O.connect() && O.subscribe({{"o/#", 1}}), "setup", "O"); O.close(); settle(); REQUIRE(P.connect() && P.publish("o/1", "for O", 1) && P.publish("r/1", "kept", 1, true), "setup", "P"); }
    void login(int ver, bool persist) { logged_in = true; ctx.ver = ver; ctx.connected = true; ctx.expiry_zero = !persist; ctx.alias_max = 3; X.o.id = "X"; X.o.ver = ver; X.o.clean = !persist; X.o.keepalive = 60; if (ver == 5) { X.o.clean = false; X.o.props = persist ? Props{pn(P_SESSEXP, 1000)} : Props{}; } X.o.will = Will{"w/x", "gone", 1, false, {}}; REQUIRE(X.connect() && X.subscribe({{"x/#", 1}}), "setup", "X"); }
    void anonymous(int ver) { ctx.ver = ver; X.o.ver = ver; REQUIRE(X.open(), "setup", "X"); }
    void others(bool persist, const std::string &what, bool ended = true) {
        REQUIRE(!B.closed() && !P.closed(), "others", "another client was disconnected by %s", what.c_str()); REQUIRE(P.publish("b/1", "still here", 1), "others", "P can't publish after %s", what.c_str()); auto v = B.publishes(); size_t n = 0, w = 0; for (auto &m : v) { n += m.topic == "b/1"; w += m.topic == "w/x"; REQUIRE(m.topic == "b/1" || m.topic == "w/x", "others", "%s made B receive %s", what.c_str(), m.txt().c_str()); } REQUIRE(n == 1, "others", "B got a message %zu times after %s", n, what.c_str()); REQUIRE(w == (logged_in && ended ? 1 : 0), "will", "the will of the one that sent %s was published %zu times", what.c_str(), w);
        Cl N("N", 4); REQUIRE(N.connect() && N.subscribe({{"#", 1}}), "others", "a new client isn't served after %s", what.c_str()); auto r = N.publishes(); REQUIRE(r.size() == 1 && r[0].topic == "r/1" && r[0].payload == "kept", "others", "%s changed the retained messages (%zu)", what.c_str(), r.size()); N.disconnect();
        REQUIRE(O.connect() && O.connack.sp, "others", "O's session is gone after %s", what.c_str()); auto q = O.publishes(); REQUIRE(q.size() == 1 && q[0].payload == "for O", "others", "O's queue changed by %s", what.c_str()); REQUIRE(P.publish("o/2", "x", 1), "others", "P"); REQUIRE(O.publishes().size() == 1, "others", "O's subscription is gone after %s", what.c_str());
        if (!ended) { if (logged_in) { REQUIRE(!X.closed(), "closed", "X was disconnected after %s", what.c_str()); X.rx.clear(); REQUIRE(X.ping(), "others", "X isn't served after %s", what.c_str()); if (X.subscribe({{"x/#", 1}})) { REQUIRE(P.publish("x/1", "y", 1), "others", "P"); REQUIRE(X.publishes().size() == 1, "session", "X's subscription doesn't work after %s", what.c_str()); } } return; }
        if (logged_in) { Cl Y("X", 4); Y.o.clean = false; REQUIRE(Y.connect(), "others", "X can't come back after %s", what.c_str()); REQUIRE(Y.connack.sp == persist, "session", "session present of the one that sent %s is %d", what.c_str(), Y.connack.sp); if (persist) { REQUIRE(P.publish("x/1", "y", 1), "others", "P"); REQUIRE(Y.publishes().size() == 1, "session", "the subscription of the one that sent %s is gone", what.c_str()); } } }
    // bytes: one packet as sent; says whether it was one that must end the connection
    void attack(const std::string &bytes, bool persist, const std::string &desc)
    {
        std::string why; size_t i = 1; uint32_t len = 0; int k = 0; bool whole = false; for (; i < bytes.size() && k < 4; i++, k++) { unsigned char c = bytes[i]; len |= (c & 0x7F) << (7 * k); if (!(c & 0x80)) { whole = true; if (k && !c) why = "not the shortest length"; i++; break; } } if (!whole && k == 4) why = "length of more than 4 bytes"; else if (!whole || bytes.size() - i < len) prune(); // incomplete: nothing to say
        if (why.empty() && bytes.size() - i > len) prune(); /* several packets */ if (why.empty() || (why[0] == 'n' && false)) why = valid::why(ctx, (unsigned char)bytes[0], bytes.substr(i, len)); note("%s: %s (%s)", desc.c_str(), hex(bytes).c_str(), why.empty() ? "allowed" : why.c_str());
        X.raw(bytes + (why.empty() || ignored(why) || lenient(why) ? "" : mq::publish(ctx.ver, "r/2", "behind", 0, 0, true))); settle(); advance(100); if (!logged_in && X.c->out.size() >= 2) X.o.ver = X.c->out[1] == 2 ? 4 : 5; /* the form of the reply depends on the version asked for */ std::string what = desc + " (" + why + ", " + hex(bytes, 60) + ")"; if (why.empty()) { X.pump(); REQUIRE(X.decode_error.empty(), "garbage", "X gets garbage: %s after %s", X.decode_error.c_str(), what.c_str()); count("allowed packets"); state("ok"); REQUIRE(s.running(), "ended", "the server ended"); REQUIRE(P.publish("b/1", "still here", 1), "others", "P can't publish after %s", what.c_str()); return; }
        if (ignored(why) && !X.closed()) { X.pump(); REQUIRE(X.decode_error.empty(), "garbage", "X gets garbage: %s after %s", X.decode_error.c_str(), what.c_str()); for (auto &p : X.rx) REQUIRE(logged_in && (p.type == PINGRESP || p.type == PUBREL || p.type == PUBCOMP), "reply", "%s is answered with %s", what.c_str(), p.txt().c_str()); count("ignored packets"); others(persist, what, false); state(why); return; } if (lenient(why)) { X.pump(); REQUIRE(X.decode_error.empty() && s.running() && P.publish("b/1", "still here", 1), "others", "trouble after %s", what.c_str()); count("packets taken leniently"); return; }
        if (getenv("MC_LEARN") && !X.closed()) { learn("accepted v" + std::to_string(ctx.ver) + ": " + why + " " + hex(bytes, 60)); return; } REQUIRE(X.closed(), "accepted", "not ended by %s", what.c_str()); X.pump(); REQUIRE(X.decode_error.empty(), "garbage", "X gets garbage: %s after %s", X.decode_error.c_str(), what.c_str());
        bool connack = false, disc = false; int rc = -1; for (auto &p : X.rx) { if (p.type == CONNACK) { connack = true; rc = p.rc; } if (p.type == DISCONNECT) { disc = true; rc = p.rc; } }
        if (!logged_in) { REQUIRE(!disc && (!connack || (rc != 0 && X.rx.size() == 1)), "reply", "%s is answered with %s", what.c_str(), X.rx.empty() ? "" : X.rx.back().txt().c_str()); }
        else if (ctx.ver < 5) { REQUIRE(!disc && !connack, "reply", "an MQTT 3 client gets %s for %s", X.rx.back().txt().c_str(), what.c_str()); }
        else { if (getenv("MC_LEARN") && !disc) { learn("no DISCONNECT: " + why + " " + hex(bytes, 60)); return; } REQUIRE(disc && !connack && X.rx.back().type == DISCONNECT && rc >= 0x80, "reason", "no DISCONNECT with a reason for %s", what.c_str()); }
        count("refused packets"); advance(200); others(persist, what); state(why);
    }
};
static const std::vector<int> &values() { static std::vector<int> few{0, 1, 2, 4, 8, 16, 32, 64, 128, 0x7f, 0xff, 0xc0, 0xed, '#', '+', '/', '$', 256, 257}, all; if (!thorough()) return few; if (all.empty()) for (int i = 0; i < 256; i++) all.push_back(i); return all; }
static std::string value(const valid::PT &t, int variant) { switch (t.kind) { case '1': return std::string(1, variant ? 1 : 0); case '2': return u16(variant ? 1 : 0); case '4': return std::string("\0\0\0", 3) + (variant ? '\1' : '\0'); case 'v': return varint(variant ? 1 : 0); case 's': return str(variant ? "m" : ""); case 'b': return str(variant ? "d" : ""); default: return variant ? str("k") + str("v") : str("") + str(""); } }
CHECK(P39, "")
{
    World w; w.start(); int part = choose(5, "part"); bool persist = false; if (part <= 3) { int ver = 3 + choose(3, "version"); if (part != 1) { persist = ver != 3; } 
        if (part == 1 || (part == 3 && choose(2, "before CONNECT"))) w.anonymous(ver); else w.login(ver, persist);
        switch (part) {
        case 0: case 1: { // one byte of a valid packet replaced, removed or inserted, its length repaired or not
            auto bs = bases(part == 1); std::vector<Base> mine; for (auto &b : bs) if (b.ver == ver) mine.push_back(b); auto &b = mine[choose(mine.size(), "packet")]; int how = choose(4, "how"); size_t at = choose(b.p.size(), "position"); std::string p = b.p; if (how && at < 2) prune(); switch (how) { case 0: { int v = values()[choose(values().size(), "value")]; int nv = v < 256 ? v : v == 256 ? (unsigned char)p[at] + 1 : (unsigned char)p[at] - 1; if ((nv & 255) == (unsigned char)p[at]) prune(); p[at] = nv; break; } case 1: p.erase(at, 1); p[1]--; break; case 2: p.insert(at, 1, "\0a\xff"[choose(3, "inserted")]); p[1]++; break; case 3: p = p.substr(0, at); p[1] = at - 2; break; }
            w.attack(p, persist, std::string(b.name) + (how == 0 ? ", a byte replaced" : how == 1 ? ", a byte removed" : how == 2 ? ", a byte inserted" : ", cut short")); break; }
        case 2: { // every property in every packet, once or twice, every kind of value
            if (ver < 5) prune(); static const int T[] = {PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, UNSUBSCRIBE, DISCONNECT, AUTH}; int t = T[choose(9, "packet")]; int id = choose(130, "property"); auto *pt = valid::ptype(id); if (!pt && id > 50 && id < 126) prune(); int variant = choose(2, "value"), times = 1 + choose(2, "times"); std::string one = varint(id) + (pt ? value(*pt, variant) : std::string("\0\1a", 3)), ps; for (int i = 0; i < times; i++) ps += one; ps = varint(ps.size()) + ps; std::string body; int fl = 0; switch (t) { case PUBLISH: body = str("t/1") + ps; break; case SUBSCRIBE: body = u16(5) + ps + str("f") + '\0'; fl = 2; break; case UNSUBSCRIBE: body = u16(5) + ps + str("f"); fl = 2; break; case DISCONNECT: body = std::string(1, 0) + ps; break; case AUTH: body = std::string(1, 0x18) + ps; break; default: body = u16(5) + '\0' + ps; fl = t == PUBREL ? 2 : 0; } w.attack(packet(t, fl, body), persist, "property " + std::to_string(id) + " in " + tname(t)); break; }
        case 3: { // every first byte with small bodies; lengths that aren't allowed
            int first = choose(256, "first byte"), b = choose(9, "body"); static const std::string BODY[] = {"", std::string("\0", 1), std::string("\0\1", 2), std::string("\0\1\0", 3), std::string("\0\0", 2), std::string("\0\1a\0", 4), std::string("\0\4MQTT\4\2\0\0\0\0", 12), "\x80", "\xff\xff\xff\xff\x01"}; std::string p(1, first); if (b == 7) p += std::string("\x82\0", 2) + std::string("\0\1", 2); else if (b == 8) p += BODY[8]; else p += varint(BODY[b].size()) + BODY[b]; w.attack(p, persist, "any packet"); break; } }
        return; }
    // every property in CONNECT and in the will
    bool will = choose(2, "will"); int id = choose(130, "property"); auto *pt = valid::ptype(id); if (!pt && id > 50 && id < 126) prune(); int variant = choose(2, "value"), times = 1 + choose(2, "times"); std::string one = varint(id) + (pt ? value(*pt, variant) : std::string("\0\1a", 3)), ps; for (int i = 0; i < times; i++) ps += one; ps = varint(ps.size()) + ps; std::string body = str("MQTT") + '\5' + (char)(will ? 6 : 2) + u16(60) + (will ? std::string(1, '\0') : ps) + str("X") + (will ? ps + str("w/x") + str("gone") : ""); w.anonymous(5); w.attack(packet(CONNECT, 0, body), false, "property " + std::to_string(id) + (will ? " in a will" : " in CONNECT"));
}
