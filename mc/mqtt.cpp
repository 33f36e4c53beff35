#include "mqtt.h"
#include <csignal>
#include <cstring>

int fmq_real_main(int, char**);

namespace mq {
const char *tname(int t)
{
    static const char *n[] = {"?", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH"};
    return t >= 0 && t < 16 ? n[t] : "?";
}
std::string u16(unsigned v) { std::string s; s += char(v >> 8); s += char(v & 255); return s; }
static std::string u32(uint32_t v) { return u16(v >> 16) + u16(v & 0xffff); }
std::string varint(uint32_t v) { std::string s; do { unsigned char b = v & 127; v >>= 7; if (v) b |= 128; s += char(b); } while (v); return s; }
std::string str(const std::string &s) { return u16(s.size()) + s; }
std::string packet(int type, int flags, const std::string &body) { std::string s; s += char(type << 4 | flags); return s + varint(body.size()) + body; }
// kind: 1 byte, 2 u16, 4 u32, 5 varint, 6 string/binary, 7 pair
static int pkind(int id)
{
    switch (id) {
    case P_PFI: case P_REQPROB: case P_REQRESP: case P_MAXQOS: case P_RETAINAVAIL: case P_WILDAVAIL: case P_SUBIDAVAIL: case P_SHAREDAVAIL: return 1;
    case P_SRVKEEP: case P_RECVMAX: case P_ALIASMAX: case P_ALIAS: return 2;
    case P_EXPIRY: case P_SESSEXP: case P_WILLDELAY: case P_MAXPKT: return 4;
    case P_SUBID: return 5;
    case P_CTYPE: case P_RESPTOPIC: case P_CORR: case P_ASSIGNED: case P_AUTHMETHOD: case P_AUTHDATA: case P_RESPINFO: case P_SRVREF: case P_REASON: return 6;
    case P_USER: return 7;
    }
    return 0;
}
std::string props(const Props &p)
{
    std::string b;
    for (auto &x : p) {
        b += char(x.id);
        switch (pkind(x.id)) {
        case 1: b += char(x.num); break;
        case 2: b += u16(x.num); break;
        case 4: b += u32(x.num); break;
        case 5: b += varint(x.num); break;
        case 6: b += str(x.s); break;
        case 7: b += str(x.s) + str(x.s2); break;
        default: b += x.s; break;
        }
    }
    return varint(b.size()) + b;
}
const Prop *find(const Props &p, int id) { for (auto &x : p) if (x.id == id) return &x; return nullptr; }
std::string connect(const ConnectOpts &o)
{
    std::string b = str(o.ver == 3 ? "MQIsdp" : "MQTT");
    b += char(o.ver);
    int f = o.clean ? 2 : 0;
    if (o.will) f |= 4 | o.will->qos << 3 | (o.will->retain ? 32 : 0);
    if (o.pass) f |= 64;
    if (o.user) f |= 128;
    b += char(f);
    b += u16(o.keepalive);
    if (o.ver >= 5) b += props(o.props);
    b += str(o.id);
    if (o.will) { if (o.ver >= 5) b += props(o.will->props); b += str(o.will->topic) + str(o.will->payload); }
    if (o.user) b += str(*o.user);
    if (o.pass) b += str(*o.pass);
    return packet(CONNECT, 0, b);
}
std::string publish(int ver, const std::string &topic, const std::string &payload, int qos, unsigned id, bool retain, bool dup, const Props &p)
{
    std::string b = str(topic);
    if (qos) b += u16(id);
    if (ver >= 5) b += props(p);
    return packet(PUBLISH, (dup ? 8 : 0) | qos << 1 | (retain ? 1 : 0), b + payload);
}
std::string ack(int ver, int type, unsigned id, int rc, const Props &p)
{
    std::string b = u16(id);
    if (ver >= 5 && (rc >= 0 || !p.empty())) { b += char(rc < 0 ? 0 : rc); if (!p.empty()) b += props(p); }
    return packet(type, type == PUBREL ? 2 : 0, b);
}
std::string subscribe(int ver, unsigned id, const std::vector<Filter> &f, const Props &p)
{
    std::string b = u16(id);
    if (ver >= 5) b += props(p);
    for (auto &x : f) b += str(x.f) + char(x.raw >= 0 ? x.raw : ver >= 5 ? x.qos | (x.nl ? 4 : 0) | (x.rap ? 8 : 0) | x.rh << 4 : x.qos);
    return packet(SUBSCRIBE, 2, b);
}
std::string unsubscribe(int ver, unsigned id, const std::vector<std::string> &f, const Props &p)
{
    std::string b = u16(id);
    if (ver >= 5) b += props(p);
    for (auto &x : f) b += str(x);
    return packet(UNSUBSCRIBE, 2, b);
}
std::string pingreq() { return packet(PINGREQ, 0, ""); }
std::string disconnect(int ver, int rc, const Props &p)
{
    std::string b;
    if (ver >= 5 && (rc >= 0 || !p.empty())) { b += char(rc < 0 ? 0 : rc); if (!p.empty()) b += props(p); }
    return packet(DISCONNECT, 0, b);
}
std::string auth(int rc, const Props &p) { std::string b; b += char(rc); b += props(p); return packet(AUTH, 0, b); }
std::string suback(int ver, unsigned id, const std::vector<int> &codes) { std::string b = u16(id); if (ver >= 5) b += props({}); for (int c : codes) b += char(c); return packet(SUBACK, 0, b); }
std::string connack(int ver, bool sp, int rc, const Props &p) { std::string b; b += char(sp); b += char(rc); if (ver >= 5) b += props(p); return packet(CONNACK, 0, b); }

struct Rd {
    const std::string &s; size_t p, e; bool bad = false; std::string why;
    unsigned b() { if (p + 1 > e) { bad = true; why = "truncated"; return 0; } return (unsigned char)s[p++]; }
    unsigned h() { unsigned a = b(); return a << 8 | b(); }
    uint32_t w() { uint32_t a = h(); return a << 16 | h(); }
    uint32_t vi() { uint32_t v = 0; int sh = 0; for (int i = 0; i < 4; i++) { unsigned x = b(); if (bad) return 0; v |= (x & 127u) << sh; sh += 7; if (!(x & 128)) return v; } bad = true; why = "bad variable byte integer"; return 0; }
    std::string st() { unsigned n = h(); if (bad || p + n > e) { bad = true; why = "truncated string"; return ""; } std::string r = s.substr(p, n); p += n; return r; }
    Props pr()
    {
        Props v; uint32_t n = vi(); if (bad) return v;
        if (p + n > e) { bad = true; why = "property length beyond packet"; return v; }
        size_t end = p + n;
        while (!bad && p < end) {
            Prop x; x.id = vi();
            switch (pkind(x.id)) {
            case 1: x.num = b(); break; case 2: x.num = h(); break; case 4: x.num = w(); break; case 5: x.num = vi(); break;
            case 6: x.s = st(); break; case 7: x.s = st(); x.s2 = st(); break;
            default: bad = true; why = "unknown property"; break;
            }
            if (!bad && x.id != P_USER && x.id != P_SUBID && find(v, x.id)) { bad = true; why = "duplicate property " + std::to_string(x.id); }
            v.push_back(x);
        }
        if (p != end) { bad = true; if (why.empty()) why = "property length mismatch"; }
        return v;
    }
};

int decode(std::string &buf, int ver, Pkt &o, std::string &err, bool server_side)
{
    if (buf.size() < 2) return 0;
    uint32_t len = 0; size_t i = 1; int sh = 0;
    for (;; i++) {
        if (i > 4) { err = "remaining length too long"; return -1; }
        if (i >= buf.size()) return 0;
        len |= uint32_t((unsigned char)buf[i] & 127) << sh; sh += 7;
        if (!((unsigned char)buf[i] & 128)) { i++; break; }
    }
    if (buf.size() < i + len) return 0;
    o = Pkt();
    o.type = (unsigned char)buf[0] >> 4; o.flags = buf[0] & 15; o.size = i + len;
    Rd r{buf, i, i + len, false, ""};
    bool v5 = ver >= 5;
    auto flags = [&](int f) { if (o.flags != f) { r.bad = true; r.why = "reserved flags"; } };
    switch (o.type) {
    case CONNACK: { flags(0); unsigned f = r.b(); if (f > 1) { r.bad = true; r.why = "connack flags"; } o.sp = f & 1; o.rc = r.b(); if (v5) o.props = r.pr(); if (o.sp && o.rc) { r.bad = true; r.why = "session present with error"; } break; }
    case PUBLISH:
        o.dup = o.flags & 8; o.qos = o.flags >> 1 & 3; o.retain = o.flags & 1;
        if (o.qos == 3) { r.bad = true; r.why = "qos 3"; }
        if (o.qos == 0 && o.dup) { r.bad = true; r.why = "dup with qos 0"; }
        o.topic = r.st();
        if (o.qos) { o.id = r.h(); if (!r.bad && !o.id) { r.bad = true; r.why = "packet id 0"; } }
        if (v5) o.props = r.pr();
        if (!r.bad) { o.payload = buf.substr(r.p, r.e - r.p); r.p = r.e; }
        break;
    case PUBACK: case PUBREC: case PUBREL: case PUBCOMP:
        flags(o.type == PUBREL ? 2 : 0);
        o.id = r.h(); o.rc = 0;
        if (v5 && r.p < r.e) { o.rc = r.b(); if (r.p < r.e) o.props = r.pr(); }
        break;
    case SUBACK: flags(0); o.id = r.h(); if (v5) o.props = r.pr(); while (!r.bad && r.p < r.e) o.codes.push_back(r.b()); break;
    case UNSUBACK: flags(0); o.id = r.h(); if (v5) { o.props = r.pr(); while (!r.bad && r.p < r.e) o.codes.push_back(r.b()); } break;
    case PINGRESP: case PINGREQ: flags(0); break;
    case DISCONNECT:
        flags(0); o.rc = 0;
        if (!v5 && !server_side) { r.bad = true; r.why = "DISCONNECT from server to MQTT 3 client"; }
        if (r.p < r.e) { o.rc = r.b(); if (r.p < r.e) o.props = r.pr(); }
        break;
    case AUTH: flags(0); o.rc = 0; if (r.p < r.e) { o.rc = r.b(); if (r.p < r.e) o.props = r.pr(); } break;
    case CONNECT: if (server_side) {
        std::string mg = r.st(); o.proto = r.b(); o.conflags = r.b(); o.co.ver = o.proto & 0x7f; o.co.keepalive = r.h(); o.co.clean = o.conflags & 2;
        if (o.co.ver >= 5) o.co.props = r.pr();
        o.co.id = r.st();
        if (o.conflags & 4) { Will w; if (o.co.ver >= 5) w.props = r.pr(); w.topic = r.st(); w.payload = r.st(); o.co.will = w; }
        if (o.conflags & 128) o.co.user = r.st();
        if (o.conflags & 64) o.co.pass = r.st();
        break; }
        [[fallthrough]];
    case SUBSCRIBE: if (server_side) { flags(2); o.id = r.h(); if (v5) o.props = r.pr(); while (!r.bad && r.p < r.e) { Filter f; f.f = r.st(); f.raw = r.b(); f.qos = f.raw & 3; f.nl = f.raw & 4; f.rap = f.raw & 8; f.rh = f.raw >> 4 & 3; o.filters.push_back(f); } break; }
        [[fallthrough]];
    case UNSUBSCRIBE: if (server_side) { flags(2); o.id = r.h(); if (v5) o.props = r.pr(); while (!r.bad && r.p < r.e) { Filter f; f.f = r.st(); o.filters.push_back(f); } break; }
        [[fallthrough]];
    default: r.bad = true; r.why = "unexpected packet type";
    }
    if (!r.bad && r.p != r.e) { r.bad = true; r.why = "trailing bytes"; }
    if (r.bad) { err = std::string(tname(o.type)) + ": " + r.why; return -1; }
    buf.erase(0, i + len);
    return 1;
}
std::string Pkt::txt() const
{
    std::string s = tname(type);
    char b[200];
    if (type == PUBLISH) { snprintf(b, sizeof b, " '%.60s' '%.60s' q%d%s%s id%u", topic.c_str(), payload.c_str(), qos, retain ? " R" : "", dup ? " D" : "", id); s += b; }
    else { if (id) { snprintf(b, sizeof b, " id%u", id); s += b; } if (rc >= 0) { snprintf(b, sizeof b, " rc%02x", rc); s += b; } if (sp) s += " sp"; for (int c : codes) { snprintf(b, sizeof b, " %02x", c); s += b; } for (auto &f : filters) { s += " " + f.f; } }
    for (auto &p : props) { snprintf(b, sizeof b, " {%d:%u %.30s %.30s}", p.id, p.num, p.s.c_str(), p.s2.c_str()); s += b; }
    return s;
}
}

namespace mc {
using namespace mq;
std::string hex(const std::string &s, size_t max)
{
    std::string r; char b[4];
    for (size_t i = 0; i < s.size() && i < max; i++) { snprintf(b, sizeof b, "%02x", (unsigned char)s[i]); r += b; }
    if (s.size() > max) r += "..";
    return r;
}
void settle()
{
    sim::settle();
    std::string w;
    if (!sim::crashed() && sim::deadlocked(w)) fail("deadlock", "threads blocked forever on locks: %s schedule: %s", w.c_str(), sim::schedule_trace().c_str());
}
void advance(uint64_t ms, uint64_t step)
{
    op();
    if (!step) step = std::max<uint64_t>(std::min<uint64_t>(ms / 300, 10000), std::min<uint64_t>(ms / 40, 400)); // coarser timer steps over long waits
    sim::advance(ms, step);
    std::string w;
    if (!sim::crashed() && sim::deadlocked(w)) fail("deadlock", "threads blocked forever on locks: %s schedule: %s", w.c_str(), sim::schedule_trace().c_str());
}
bool Cl::open(const char *ip)
{
    c = sim::connect_in(port, ip);
    rbuf.clear(); rx.clear(); aliases.clear(); closed_seen = false; decode_error.clear();
    return c != nullptr;
}
void Cl::send_connect() { if (!open()) fail("no-listener", "nobody listens on port %d", port); raw(mq::connect(o)); }
bool Cl::connect()
{
    send_connect();
    settle();
    auto p = pop();
    if (!p || p->type != CONNACK) { if (p) rx.push_front(*p); return false; }
    connack = *p;
    return p->rc == 0;
}
void Cl::pump()
{
    if (!c) return;
    rbuf += sim::take(c);
    while (decode_error.empty()) {
        Pkt p; std::string err;
        int r = decode(rbuf, o.ver, p, err);
        if (r == 0) break;
        if (r < 0) { decode_error = err; fail("malformed-output", "client %s received a malformed packet from the server: %s bytes %s", name.c_str(), err.c_str(), hex(rbuf).c_str()); }
        if (p.type == PUBLISH && resolve_alias) {
            const Prop *a = find(p.props, P_ALIAS);
            if (a) { if (!p.topic.empty()) aliases[a->num] = p.topic; else { auto it = aliases.find(a->num); if (it == aliases.end()) fail("alias-unknown", "client %s received alias %u that was never set", name.c_str(), a->num); p.topic = it->second; } }
            if (p.topic.empty()) fail("empty-topic", "client %s received a publish without topic", name.c_str());
        }
        rx.push_back(p);
    }
}
bool Cl::closed() { return !c || c->srv_closed; }
void Cl::close(bool rst) { if (c) sim::close_peer(c, rst); }
void Cl::disconnect(int rc, const Props &p) { if (!c) return; raw(mq::disconnect(o.ver, rc, p)); settle(); sim::close_peer(c); settle(); }
unsigned Cl::sub(const std::vector<Filter> &f, const Props &p) { unsigned id = next_id++; raw(mq::subscribe(o.ver, id, f, p)); return id; }
std::optional<Pkt> Cl::pop(int type)
{
    pump();
    for (auto it = rx.begin(); it != rx.end(); ++it) if (!type || it->type == type) { Pkt p = *it; rx.erase(it); return p; }
    return {};
}
bool Cl::subscribe(const std::vector<Filter> &f, const Props &p, std::vector<int> *codes)
{
    unsigned id = sub(f, p);
    settle();
    auto a = pop(SUBACK);
    if (!a) return false;
    if (a->id != id) fail("suback-id", "client %s: SUBACK id %u for SUBSCRIBE %u", name.c_str(), a->id, id);
    if (a->codes.size() != f.size()) fail("suback-count", "client %s: SUBACK with %zu codes for %zu filters", name.c_str(), a->codes.size(), f.size());
    if (codes) *codes = a->codes;
    return true;
}
bool Cl::unsubscribe(const std::vector<std::string> &f, std::vector<int> *codes)
{
    unsigned id = next_id++;
    raw(mq::unsubscribe(o.ver, id, f));
    settle();
    auto a = pop(UNSUBACK);
    if (!a) return false;
    if (a->id != id) fail("unsuback-id", "client %s: UNSUBACK id %u for %u", name.c_str(), a->id, id);
    if (v5() && a->codes.size() != f.size()) fail("unsuback-count", "client %s: UNSUBACK with %zu codes for %zu filters", name.c_str(), a->codes.size(), f.size());
    if (codes) *codes = a->codes;
    return true;
}
void Cl::pub(const std::string &t, const std::string &pl, int qos, bool retain, const Props &p, unsigned id)
{
    if (qos && !id) id = next_id++;
    raw(mq::publish(o.ver, t, pl, qos, id, retain, false, p));
}
bool Cl::publish(const std::string &t, const std::string &pl, int qos, bool retain, const Props &p)
{
    unsigned id = qos ? next_id++ : 0;
    raw(mq::publish(o.ver, t, pl, qos, id, retain, false, p));
    settle();
    if (qos == 0) return !closed();
    auto a = pop(qos == 1 ? PUBACK : PUBREC);
    if (!a) { std::string l; for (auto &x : rx) l += x.txt() + "; "; note("client %s: no acknowledgement for %u; closed %d; others: %s", name.c_str(), id, closed(), l.c_str()); return false; }
    if (a->id != id) fail("ack-id", "client %s: %s id %u for PUBLISH id %u", name.c_str(), tname(a->type), a->id, id);
    if (a->rc >= 0x80) return false;
    if (qos == 2) {
        raw(ack(o.ver, PUBREL, id));
        settle();
        auto b = pop(PUBCOMP);
        if (!b || b->id != id) fail("pubcomp", "client %s: no PUBCOMP for %u", name.c_str(), id);
    }
    return true;
}
std::vector<Pkt> Cl::publishes(bool do_ack)
{
    std::vector<Pkt> v;
    for (;;) {
        pump();
        bool sent = false;
        for (auto it = rx.begin(); it != rx.end();) {
            if (it->type == PUBLISH) {
                if (do_ack && it->qos) { raw(ack(o.ver, it->qos == 1 ? PUBACK : PUBREC, it->id)); sent = true; }
                v.push_back(*it); it = rx.erase(it);
            } else if (it->type == PUBREL && do_ack) { raw(ack(o.ver, PUBCOMP, it->id)); sent = true; it = rx.erase(it); }
            else ++it;
        }
        if (!sent) break;
        settle();
    }
    return v;
}
bool Cl::ping() { raw(pingreq()); settle(); return pop(PINGRESP).has_value(); }

std::string Server::base_conf()
{
    return std::string("thread_count 2\nlog_level ") + (param("debug", 0) ? "debug" : "none") + "\nallow_anonymous true\nlisten {\nport 1883\nprotocol mqtt\ninet_protocol ip4\n}\n";
}
void Server::write_conf(const std::string &extra, bool with_base)
{
    conf = (with_base ? base_conf() : std::string()) + extra;
    sim::fs::put(base, conf);
}
bool Server::start(const std::string &extra, bool with_base)
{
    sim::fs::mkdir("/mcfs"); sim::fs::mkdir("/mcfs/store");
    write_conf(extra, with_base);
    co = sim::boot({"flashmq", "-c", base}, &fmq_real_main);
    mc::settle();
    if (sim::crashed()) return false;
    mc::advance(200);
    int rc;
    if (sim::finished(co, &rc)) { exit_code = rc; return false; }
    return !sim::listening_ports().empty();
}
bool Server::running() { return co >= 0 && !sim::finished(co, nullptr); }
bool Server::stop()
{
    sim::deliver_signal(SIGTERM);
    for (int i = 0; i < 1200; i++) {
        mc::settle();
        if (sim::crashed()) return false;
        if (sim::finished(co, &exit_code)) { return exit_code == 0; }
        mc::advance(100);
    }
    return false;
}
void Server::crash() { sim::abandon_all(); }
void Server::reload() { sim::deliver_signal(SIGHUP); mc::settle(); mc::advance(200); }
void explore_schedules(int budget, const std::function<void()> &f)
{
    auto &s = sim::sched();
    s.choose = [](int n) { return choose(n, "sched"); };
    s.budget = budget; s.on = true; s.points = 0;
    f();
    s.on = false;
}
}
