// P31 PROXY protocol headers set the client address or refuse the client.
#include "mqtt.h"
#include "model.h"
#include "plugin.h"
#include <set>
using namespace mc;
using namespace mq;
static const std::string SIG("\r\n\r\n\0\r\nQUIT\n", 12);
static std::string hdr(int vercmd, int fam, int len) { return SIG + char(vercmd) + char(fam) + u16(len); }
static std::string tlv(int t, const std::string &v) { return std::string(1, char(t)) + u16(v.size()) + v; }
static std::string ssl(const std::string &sub, int verify = 0) { return tlv(0x20, std::string("\x07\0\0\0", 4) + char(verify) + sub); }
struct Seen { std::string user, addr; std::string port; int family = 0; };
static std::vector<Seen> logins;
static void hook()
{
    logins.clear(); install_plugin();
    plugin().login = [](const std::string &, const std::string &u, const std::string &, const std::weak_ptr<Client> &c) {
        Seen s; s.user = u; sockaddr_storage a{}; socklen_t l = sizeof a; flashmq_get_client_address_v4(c, &s.addr, (sockaddr*)&a, &l); s.family = a.ss_family;
        if (a.ss_family == AF_INET) s.port = u16(ntohs(((sockaddr_in*)&a)->sin_port)); else s.port = u16(ntohs(((sockaddr_in6*)&a)->sin6_port));
        logins.push_back(s); return AuthResult::success; };
}
static std::string conf(const char *mode) { return std::string(PLUGIN_CONF) + "listen {\nport 8090\nprotocol mqtt\ninet_protocol ip4\nhaproxy " + mode + "\n}\n"; }
struct Addr { int fam; std::string raw, text, port; };
static Addr addr(int i)
{
    static const char *v4[] = {"192.0.2.33", "0.0.0.1", "255.255.255.254"}, *v6[] = {"2001:db8::1:2", "::1", "fe80::ff:fe00:1"};
    static const unsigned ports[] = {0, 1, 256, 40000, 65535};
    Addr r; unsigned p = ports[i % 5]; r.port = u16(p); std::string pp = u16(p) + u16(1883);
    if (i % 2) { in6_addr s, d; inet_pton(AF_INET6, v6[i % 3], &s); inet_pton(AF_INET6, "2001:db8::aaaa", &d); r.fam = 2; r.raw = std::string((char*)&s, 16) + std::string((char*)&d, 16) + pp; r.text = v6[i % 3]; }
    else { in_addr s, d; inet_pton(AF_INET, v4[i % 3], &s); inet_pton(AF_INET, "10.9.8.7", &d); r.fam = 1; r.raw = std::string((char*)&s, 4) + std::string((char*)&d, 4) + pp; r.text = v4[i % 3]; }
    return r;
}
static const std::vector<std::string> &tlvs()
{
    static const std::vector<std::string> v = {"", tlv(1, "mqtt"), tlv(2, "host.example"), tlv(3, "\1\2\3\4"), tlv(4, ""), tlv(4, std::string(2000, '\0')), tlv(5, "id") + tlv(0x30, "ns") + tlv(0xe0, "custom"),
        ssl(tlv(0x21, "TLSv1.3") + tlv(0x22, "the user")), tlv(2, "x") + ssl("") + tlv(0xee, std::string(255, 'e')), ssl(tlv(0x22, "a\xc3\xa9")), tlv(4, std::string(253, 'a')), tlv(4, std::string(254, 'a'))};
    return v;
}
static std::string payload_of(int n) { return "p" + std::to_string(n); }
static int seq;
// a session over this connection works: everything after the header arrived
static void works(Cl &c, Cl &o, const std::string &what, size_t nlogins)
{
    REQUIRE(!c.closed(), "refused", "%s: closed", what.c_str());
    auto a = c.all(); REQUIRE(a.size() == 2 && a[0].type == CONNACK && a[0].rc == 0 && a[1].type == PUBACK, "lost", "%s: %zu answers instead of CONNACK and PUBACK", what.c_str(), a.size());
    auto v = o.publishes(); REQUIRE(v.size() == 1 && v[0].payload == payload_of(seq), "lost", "%s: %zu messages", what.c_str(), v.size());
    REQUIRE(logins.size() == nlogins, "login", "%zu logins", logins.size());
}
static std::string bytes(Cl &c) { seq++; return mq::connect(c.o) + mq::publish(c.o.ver, "o/a", payload_of(seq), 1, 3); }
static void wellformed()
{
    int ai = choose(15, "address"), ti = choose(tlvs().size(), "tlv"), prot = 1 + choose(2, "protocol"); bool ws = false; (void)ws;
    hook(); Server srv; REQUIRE(srv.start(conf("on")), "boot", "no start"); Cl o("O", 4); REQUIRE(o.connect() && o.subscribe({{"o/#", 1}}), "connect", "O"); logins.clear();
    Addr a = addr(ai); std::string h = hdr(0x21, a.fam << 4 | prot, a.raw.size() + tlvs()[ti].size()) + a.raw, t = tlvs()[ti]; size_t n = 0;
    note("address %s, tlv %d, protocol %d", a.text.c_str(), ti, prot);
    auto check = [&](Cl &c, const std::string &w) { works(c, o, w, ++n); const Seen &s = logins.back(); REQUIRE(s.addr == a.text && s.port == a.port && s.family == (a.fam == 1 ? AF_INET : AF_INET6), "address", "%s: address %s port %u instead of %s", w.c_str(), s.addr.c_str(), (unsigned char)s.port[0] << 8 | (unsigned char)s.port[1], a.text.c_str()); count("headers"); };
    auto go = [&](const std::vector<std::string> &w, const std::string &what) { Cl c("X", 4); c.o.user = "u"; c.o.pass = "p"; c.port = 8090; c.open("198.51.100.7"); settle(); for (auto &x : w) { c.raw(x); settle(); } check(c, what); c.close(); settle(); };
    Cl x("X", 4); x.o.user = "u"; x.o.pass = "p"; std::string b;
    b = bytes(x); go({h + t + b}, "all at once"); b = bytes(x); go({h + t, b}, "header, then MQTT");
    std::string all; 
    for (size_t i = 0; i < t.size(); i += t.size() > 300 && !thorough() ? 37 : 1) { b = bytes(x); go({h + t.substr(0, i), t.substr(i) + b}, "TLVs cut at " + std::to_string(i)); if (t.size() < 60) { b = bytes(x); go({h, t.substr(0, i), t.substr(i) + b.substr(0, 5), b.substr(5)}, "TLVs cut at 0 and " + std::to_string(i)); } }
    if (!t.empty() && t.size() < 100) { std::vector<std::string> v{h}; for (char c : t) v.push_back(std::string(1, c)); b = bytes(x); for (char c : b) v.push_back(std::string(1, c)); go(v, "byte by byte after the address"); }
    for (size_t i = 1; i < 20; i++) { b = bytes(x); go({h + t + b.substr(0, i), b.substr(i)}, "MQTT cut at " + std::to_string(i)); }
}
// a header that isn't well-formed, or isn't of a proxied connection: closed, and what follows has no effect
static bool parse_tlv(const std::string &d, int depth = 1)
{
    if (depth > 2) return false;
    std::set<int> seen; size_t i = 0;
    while (i < d.size()) { if (i + 3 > d.size()) return false; int t = (unsigned char)d[i]; size_t n = (unsigned char)d[i + 1] << 8 | (unsigned char)d[i + 2]; i += 3; if (i + n > d.size() || !seen.insert(t).second) return false;
        if (t == 0x20) { if (n < 5 || !parse_tlv(d.substr(i + 5, n - 5), depth + 1)) return false; } i += n; }
    return true;
}
static void bytes_changed()
{
    int ai = choose(2, "address"), pos = choose(4, "byte"), val = choose(256, "value"), ti = choose(2, "tlv") ? 6 : 0;
    hook(); Server srv; REQUIRE(srv.start(conf("on")), "boot", "no start"); Cl o("O", 4); REQUIRE(o.connect() && o.subscribe({{"o/#", 1}}), "connect", "O"); logins.clear();
    Addr a = addr(ai); std::string t = tlvs()[ti], h = hdr(0x21, a.fam << 4 | 1, a.raw.size() + t.size()) + a.raw + t; h[12 + pos] = char(val); 
    Cl c("X", 4); c.o.user = "u"; c.o.pass = "p"; c.port = 8090; std::string s = h + bytes(c);
    // what the specification makes of it
    int vc = (unsigned char)s[12], fam = (unsigned char)s[13] >> 4, prot = s[13] & 15; size_t len = (unsigned char)s[14] << 8 | (unsigned char)s[15], al = fam == 1 ? 12 : fam == 2 ? 36 : fam == 3 ? 216 : 0;
    bool ok = vc == 0x21 && (fam == 1 || fam == 2) && (prot == 1 || prot == 2) && len >= al && s.size() >= 16 + len && parse_tlv(s.substr(16 + al, len - al)), whole = s.size() >= 16 + len;
    note("byte %d is %d, address %d, tlv %d: %s", 12 + pos, val, ai, ti, ok ? "ok" : "bad");
    c.open("198.51.100.7"); settle(); c.raw(s); settle();
    if (ok && len == h.size() - 16) { works(c, o, "changed header", 1); return; }
    if (!c.closed() && (!whole || ok)) { advance(120000, 1000); } // waits for the rest of it, or what comes after isn't MQTT
    if (!c.closed()) advance(1000);
    REQUIRE(c.closed(), "open", "connection with a bad header stays open"); c.pump(); REQUIRE(c.rx.empty() || ok, "answer", "bad header is answered"); auto v = o.publishes(); REQUIRE(v.empty() && logins.empty(), "effect", "bad header: %zu messages, %zu logins", v.size(), logins.size());
    Cl z("Z", 4); z.o.user = "u"; z.o.pass = "p"; z.port = 8090; z.open("198.51.100.9"); settle(); Addr g = addr(0); z.raw(hdr(0x21, 0x11, 12) + g.raw + bytes(z)); settle(); works(z, o, "the next client", 1);
}
static void malformed()
{
    struct B { const char *what; std::string h; };
    Addr a = addr(0), a6 = addr(1); auto with = [&](const std::string &t) { return hdr(0x21, 0x11, 12 + t.size()) + a.raw + t; };
    std::vector<B> bad = {{"no header", ""}, {"version 1 header", "PROXY TCP4 192.0.2.1 10.0.0.1 1234 1883\r\n"}, {"signature twice", SIG + hdr(0x21, 0x11, 12) + a.raw}, {"LOCAL", hdr(0x20, 0, 0)}, {"LOCAL with address", hdr(0x20, 0x11, 12) + a.raw}, {"LOCAL with TLV", hdr(0x20, 0x11, 12 + 5) + a.raw + tlv(4, "ab")}, {"UNSPEC", hdr(0x21, 0, 0)}, {"UNSPEC with TLV", hdr(0x21, 0, 5) + tlv(4, "ab")},
        {"unix", hdr(0x21, 0x31, 216) + std::string(216, 'u')}, {"length less than address", hdr(0x21, 0x21, 35) + a6.raw}, {"TLV cut", with("\4")}, {"TLV cut 2", with(std::string("\4\0", 2))}, {"TLV longer than header", with(std::string("\4\0\5ab", 5))}, {"TLV of 65535", with("\4\xff\xff" "ab")}, {"type twice", with(tlv(4, "a") + tlv(4, "b"))}, {"SSL twice", with(ssl("") + ssl(""))},
        {"SSL too short", with(tlv(0x20, "\1\0\0"))}, {"SSL empty", with(tlv(0x20, ""))}, {"SSL with bad sub", with(ssl("\x22"))}, {"SSL in SSL in SSL", with(ssl(ssl(ssl(""))))}, {"CN not UTF-8", with(ssl(tlv(0x22, "a\xff")))}, {"CN cut UTF-8", with(ssl(tlv(0x22, "a\xc3")))}, {"CN twice", with(ssl(tlv(0x22, "a") + tlv(0x22, "b")))}, {"zero bytes", std::string(28, '\0')}};
    for (int i = 0; i < 12; i++) { std::string h = hdr(0x21, 0x11, 12) + a.raw; h[i] ^= 0x20; bad.push_back({"signature changed", h}); }
    const B &x = bad[choose(bad.size(), "header")]; int cut = choose(3, "arrival");
    hook(); Server srv; REQUIRE(srv.start(conf("on")), "boot", "no start"); Cl o("O", 4), w("W", 4); w.o.will = Will{"w", "x", 0, false, {}}; REQUIRE(o.connect() && o.subscribe({{"#", 1}}) && w.connect(), "connect", "O"); logins.clear();
    Cl c("W", 4); c.port = 8090; c.open("198.51.100.7"); settle(); std::string s = x.h + bytes(c); note("%s, arrival %d", x.what, cut);
    if (cut == 0) { c.raw(s); settle(); } else { size_t i = cut == 1 ? std::min(s.size(), x.h.size()) : s.size() > 28 ? 28 : 5; c.raw(s.substr(0, i)); settle(); if (!c.closed()) { c.raw(s.substr(i)); settle(); } }
    advance(1000); REQUIRE(c.closed(), "open", "%s: connection stays open", x.what); c.pump(); REQUIRE(c.rx.empty(), "answer", "%s: answered", x.what); auto v = o.publishes(); REQUIRE(v.empty() && logins.empty(), "effect", "%s: %zu messages, %zu logins", x.what, v.size(), logins.size());
    REQUIRE(!w.closed() && w.ping() && o.ping(), "other", "another client is affected");
}
static void cut_short()
{
    Addr a = addr(choose(2, "address")); std::string t = tlvs()[choose(2, "tlv") ? 7 : 0], h = hdr(0x21, a.fam << 4 | 1, a.raw.size() + t.size()) + a.raw + t; size_t i = choose(h.size(), "cut"); int how = choose(3, "how");
    hook(); Server srv; REQUIRE(srv.start(conf("on")), "boot", "no start"); Cl o("O", 4); REQUIRE(o.connect() && o.subscribe({{"o/#", 1}}), "connect", "O"); logins.clear(); int fds = sim::open_fake_fds();
    Cl c("X", 4); c.o.user = "u"; c.o.pass = "p"; c.port = 8090; c.open("198.51.100.7"); settle(); c.raw(h.substr(0, i)); settle(); note("header cut at %zu, %d", i, how);
    if (!c.closed()) { if (how == 0) c.close(); else if (how == 1) c.close(true); settle(); advance(how == 2 ? 200000 : 1000, 1000); }
    REQUIRE(c.closed() && sim::open_fake_fds() == fds, "leak", "connection with part of a header isn't removed"); REQUIRE(logins.empty() && o.publishes().empty() && o.ping(), "effect", "part of a header has an effect");
}
static void client_verification()
{
    int mode = choose(2, "mode"), k = choose(6, "certificate"), named = choose(3, "username");
    hook(); Server srv; REQUIRE(srv.start(conf(mode ? "client_verification_with_authn\nallow_anonymous false" : "client_verification")), "boot", "no start"); Cl o("O", 4); REQUIRE(o.connect() && o.subscribe({{"o/#", 1}}), "connect", "O"); logins.clear();
    static const std::string cn[] = {"", "the user", "a\xc3\xa9", std::string(200, 'n'), "", ""}; std::string t = k == 0 ? "" : k < 4 ? ssl(tlv(0x22, cn[k])) : k == 4 ? ssl(tlv(0x21, "TLSv1.2")) : tlv(0x22, "outside"); bool ok = k >= 1 && k <= 3;
    Addr a = addr(0); Cl c("X", 4); if (named) c.o.user = named == 1 ? "other" : "admin"; if (named) c.o.pass = "pw"; c.port = 8090; c.open("198.51.100.7"); settle(); std::string b = bytes(c);
    note("mode %d, certificate %d, username %d", mode, k, named);
    c.raw(hdr(0x21, 0x11, 12 + t.size()) + a.raw + t + b); settle(); advance(1000);
    if (!ok) { REQUIRE(c.closed() && o.publishes().empty(), "unverified", "a client without a certificate name is accepted"); return; }
    works(c, o, "certificate", mode ? 1 : 0); if (mode) REQUIRE(logins[0].user == cn[k], "username", "login as '%s' instead of the certificate's name", logins[0].user.c_str());
}
static void websocket()
{
    hook(); int ai = choose(4, "address"); Server srv; REQUIRE(srv.start(std::string(PLUGIN_CONF) + "listen {\nport 8090\nprotocol websockets\ninet_protocol ip4\nhaproxy on\n}\nlisten {\nport 8091\nprotocol mqtt\ninet_protocol ip4\nhaproxy off\n}\n"), "boot", "no start");
    Addr a = addr(ai); std::string t = tlvs()[choose(2, "tlv") ? 7 : 0], h = hdr(0x21, a.fam << 4 | 1, a.raw.size() + t.size()) + a.raw + t, r = "GET / HTTP/1.1\r\nHost: a\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Protocol: mqtt\r\nSec-WebSocket-Version: 13\r\n\r\n"; logins.clear();
    size_t i = 1 + choose(r.size(), "cut"); Cl c("X", 4); c.o.user = "u"; c.o.pass = "p"; c.port = 8090; c.open(); settle(); c.raw(h + r.substr(0, i)); settle(); c.raw(r.substr(i)); settle(); std::string out = sim::take(c.c); REQUIRE(out.compare(0, 12, "HTTP/1.1 101") == 0, "lost", "no upgrade: %s", out.c_str());
    std::string p = mq::connect(c.o); c.raw(std::string("\x82") + char(p.size()) + p); settle(); out = sim::take(c.c); REQUIRE(out == std::string("\x82\x04\x20\x02\0\0", 6), "lost", "no CONNACK"); REQUIRE(logins.size() == 1 && logins[0].addr == a.text, "address", "address");
    Cl d("D", 4); d.port = 8091; REQUIRE(d.connect(), "off", "no connection to a listener without PROXY protocol");
}
CHECK(P31, "")
{
    switch (choose(6, "part")) { case 0: wellformed(); break; case 1: bytes_changed(); break; case 2: malformed(); break; case 3: cut_short(); break; case 4: client_verification(); break; case 5: websocket(); break; }
}
