// Strict reading of what a client may send, from the MQTT 3.1.1 and 5.0 specifications. Says why a packet is not allowed ("" when it is).
#pragma once
#include "mqtt.h"
#include "model.h"
namespace valid {
struct Ctx { int ver = 4; bool connected = false; bool extended_auth = false; bool expiry_zero = false; unsigned alias_max = 0; };
inline bool utf8(const std::string &s) {
    for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; int n = c < 0x80 ? 0 : c >= 0xC2 && c <= 0xDF ? 1 : (c & 0xF0) == 0xE0 ? 2 : c >= 0xF0 && c <= 0xF4 ? 3 : -1; if (n < 0 || i + n >= s.size() || !c) return false; uint32_t v = n ? c & (0x3F >> n) : c; for (int k = 1; k <= n; k++) { unsigned char d = s[i + k]; if ((d & 0xC0) != 0x80) return false; v = v << 6 | (d & 0x3F); } if ((n == 2 && (v < 0x800 || (v >= 0xD800 && v <= 0xDFFF))) || (n == 3 && (v < 0x10000 || v > 0x10FFFF))) return false; i += n + 1; } return true; }
struct Rd {
    const std::string &b; size_t i = 0; std::string why;
    void bad(const std::string &w) { if (why.empty()) why = w; }
    bool end() const { return i >= b.size(); }
    unsigned u8() { if (i >= b.size()) { bad("too short"); return 0; } return (unsigned char)b[i++]; }
    unsigned u16() { unsigned h = u8(); return h << 8 | u8(); }
    uint32_t u32() { uint32_t h = u16(); return h << 16 | u16(); }
    uint32_t var() { uint32_t v = 0; for (int k = 0; k < 4; k++) { unsigned c = u8(); v |= (c & 0x7F) << (7 * k); if (!(c & 0x80)) { if (k && !c) bad("not the shortest length"); return v; } } bad("length of more than 4 bytes"); return 0; }
    std::string bin() { unsigned n = u16(); if (i + n > b.size()) { bad("string beyond the end"); i = b.size(); return ""; } std::string s = b.substr(i, n); i += n; return s; }
    std::string str(const char *what) { std::string s = bin(); if (!utf8(s)) bad(std::string("not UTF-8: ") + what); return s; }
};
enum { F_WILL = 1 << 16 };
// property id -> kind (1 byte, 2 two bytes, 4 four, v varint, s string, b binary, p pair), packets it may be in when a client sends it
struct PT { int id; char kind; uint32_t in; };
inline const PT *ptype(int id)
{
    using namespace mq; auto m = [](std::initializer_list<int> l) { uint32_t r = 0; for (int x : l) r |= 1u << x; return r; }; const uint32_t W = F_WILL;
    static const PT t[] = {{1, '1', m({PUBLISH}) | W}, {2, '4', m({PUBLISH}) | W}, {3, 's', m({PUBLISH}) | W}, {8, 's', m({PUBLISH}) | W}, {9, 'b', m({PUBLISH}) | W}, {11, 'v', m({SUBSCRIBE})}, {17, '4', m({CONNECT, DISCONNECT})}, {18, 's', 0}, {19, '2', 0}, {21, 's', m({CONNECT, AUTH})}, {22, 'b', m({CONNECT, AUTH})}, {23, '1', m({CONNECT})}, {24, '4', W}, {25, '1', m({CONNECT})}, {26, 's', 0}, {28, 's', 0},
        {31, 's', m({PUBACK, PUBREC, PUBREL, PUBCOMP, DISCONNECT, AUTH})}, {33, '2', m({CONNECT})}, {34, '2', m({CONNECT})}, {35, '2', m({PUBLISH})}, {36, '1', 0}, {37, '1', 0}, {38, 'p', 0xFFFFFFFF}, {39, '4', m({CONNECT})}, {40, '1', 0}, {41, '1', 0}, {42, '1', 0}};
    for (auto &x : t) if (x.id == id) return &x; return nullptr;
}
struct Got { bool alias = false; unsigned alias_v = 0; bool method = false, data = false; uint32_t expiry = 0; };
inline Got properties(Rd &r, uint32_t where)
{
    Got g; uint32_t n = r.var(); if (!r.why.empty()) return g; if (r.i + n > r.b.size()) { r.bad("properties beyond the end"); return g; } std::string body = r.b.substr(r.i, n); r.i += n; Rd p{body, 0, ""}; std::set<int> seen;
    while (!p.end() && p.why.empty()) { uint32_t id = p.var(); const PT *t = ptype(id); if (!t) { p.bad("unknown property"); break; } uint32_t v = 0; std::string s; switch (t->kind) { case '1': v = p.u8(); break; case '2': v = p.u16(); break; case '4': v = p.u32(); break; case 'v': v = p.var(); break; case 's': s = p.str(id == 8 ? "response topic" : id == 31 ? "reason" : id == 3 ? "content type" : "auth method"); break; case 'b': p.bin(); break; default: p.str("user property"); p.str("user property"); }
        if (!p.why.empty()) break; if (!(t->in & where)) p.bad("property " + std::to_string(id) + " not allowed here"); if (id != 38 && !seen.insert(id).second) p.bad("property " + std::to_string(id) + " twice"); if ((id == 1 || id == 23 || id == 25) && v > 1) p.bad("property " + std::to_string(id) + " neither 0 nor 1"); if ((id == 33 || id == 39 || id == 35 || id == 11) && v == 0) p.bad("property " + std::to_string(id) + " is 0"); if (id == 8 && s.find_first_of("#+") != std::string::npos) p.bad("wildcard in response topic"); if (id == 8 && s.empty()) p.bad("empty response topic");
        if (id == 35) g.alias = true, g.alias_v = v; if (id == 21) g.method = true; if (id == 22) g.data = true; if (id == 17) g.expiry = v; }
    if (p.why == "too short" || p.why == "string beyond the end") p.why = "property cut off"; r.bad(p.why); return g;
}
inline bool in(int v, std::initializer_list<int> l) { for (int x : l) if (x == v) return true; return false; }
// the packet's first byte and its body, whole
inline std::string why(const Ctx &c, unsigned first, const std::string &body)
{
    using namespace mq; int type = first >> 4, fl = first & 15; bool v5 = c.ver >= 5; Rd r{body, 0, ""}; auto done = [&] { if (r.why.empty() && !r.end()) r.bad("more bytes than the packet has"); return r.why.empty() ? "" : std::string(tname(type)) + ": " + r.why; };
    if (!c.connected && type != CONNECT) return "before CONNECT"; if (c.connected && type == CONNECT) return "second CONNECT"; if (type == 0 || (type == 15 && !v5)) return "type " + std::to_string(type); if (in(type, {CONNACK, SUBACK, UNSUBACK, PINGRESP})) return "a server's packet: " + std::string(tname(type));
    if (type != PUBLISH && fl != (in(type, {PUBREL, SUBSCRIBE, UNSUBSCRIBE}) ? 2 : 0)) { r.bad("flags"); return done().empty() ? "flags" : std::string(tname(type)) + ": flags"; }
    switch (type) {
    case CONNECT: { std::string name = r.bin(); unsigned ver = r.u8(); if (!r.why.empty()) return done(); if (!((name == "MQTT" && (ver == 4 || ver == 5)) || (name == "MQIsdp" && ver == 3))) return "CONNECT: protocol name or version"; unsigned f = r.u8(); r.u16(); if (f & 1) r.bad("reserved flag"); int wq = f >> 3 & 3; if (wq == 3 || (!(f & 4) && (wq || f & 0x20))) r.bad("will flags"); if (ver < 5 && (f & 0x40) && !(f & 0x80)) r.bad("password without user name"); if (ver == 5) { Got g = properties(r, 1u << CONNECT); if (g.data && !g.method) r.bad("authentication data without method"); }
        r.str("client id"); if (f & 4) { if (ver == 5) properties(r, F_WILL); std::string t = r.str("will topic"); if (r.why.empty() && (t.empty() || t.find_first_of("#+") != std::string::npos)) r.bad("will topic"); r.bin(); } if (f & 0x80) r.str("user name"); if (f & 0x40) r.bin(); return done(); }
    case PUBLISH: { int q = fl >> 1 & 3; if (q == 3) r.bad("QoS 3"); if (!q && fl & 8) r.bad("DUP with QoS 0"); std::string t = r.str("topic"); if (q && r.why.empty() && !r.u16()) r.bad("packet id 0"); Got g; if (v5) g = properties(r, 1u << PUBLISH); if (r.why.empty() && t.empty() && !g.alias) r.bad("no topic"); if (r.why.empty() && t.find_first_of("#+") != std::string::npos) r.bad("wildcard in topic"); if (r.why.empty() && g.alias && g.alias_v > c.alias_max) r.bad("alias beyond the maximum"); if (r.why.empty() && t.empty() && g.alias) r.bad("unknown alias"); return r.why.empty() ? "" : "PUBLISH: " + r.why; }
    case PUBACK: case PUBREC: case PUBREL: case PUBCOMP: { if (!r.u16()) r.bad("packet id 0"); if (v5 && !r.end()) { int rc = r.u8(); if (r.why.empty() && !(in(type, {PUBACK, PUBREC}) ? in(rc, {0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99}) : in(rc, {0, 0x92}))) r.bad("reason code"); if (!r.end()) properties(r, 1u << type); } return done(); }
    case SUBSCRIBE: case UNSUBSCRIBE: { if (!r.u16()) r.bad("packet id 0"); if (v5) properties(r, 1u << type); if (r.why.empty() && r.end()) r.bad("no filters"); while (r.why.empty() && !r.end()) { std::string f = r.str("filter"); if (!r.why.empty()) break; bool shared = v5 && f.rfind("$share/", 0) == 0; if (!model::valid_filter(f)) r.bad("filter"); if (f.rfind("$share/", 0) == 0) { size_t q = f.find('/', 7); if (v5 && (q == std::string::npos || q == 7 || q + 1 >= f.size() || f.substr(7, q - 7).find_first_of("#+") != std::string::npos)) r.bad("shared subscription's filter"); }
        if (type == SUBSCRIBE) { unsigned o = r.u8(); if (!r.why.empty()) break; if ((o & 3) == 3) r.bad("QoS 3"); if (o & (v5 ? 0xC0 : 0xFC)) r.bad("reserved option bits"); if (v5 && (o >> 4 & 3) == 3) r.bad("retain handling 3"); if (shared && o & 4) r.bad("no local with a shared subscription"); } } return done(); }
    case PINGREQ: return done();
    case DISCONNECT: { if (v5 && !r.end()) { int rc = r.u8(); if (r.why.empty() && !in(rc, {0, 4, 0x80, 0x81, 0x82, 0x83, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99})) r.bad("reason code"); if (!r.end()) { Got g = properties(r, 1u << DISCONNECT); if (r.why.empty() && g.expiry && c.expiry_zero) r.bad("expiry after none"); } } return done(); }
    default: return c.extended_auth ? "AUTH" : "AUTH without authentication method"; }
}
}
