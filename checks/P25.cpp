// P25 Topic names, filters and strings are validated.
#include "mqtt.h"
#include "model.h"
using namespace mc;
using namespace mq;
// Well-formed UTF-8 by the definition of Unicode (table of byte ranges), without control characters and noncharacters.
static bool good(const std::string &s)
{
    for (size_t i = 0; i < s.size();) {
        auto b = [&](size_t k) -> unsigned { return i + k < s.size() ? (unsigned char)s[i + k] : 0; };
        unsigned c = b(0); size_t n; uint32_t cp;
        if (c < 0x80) { n = 1; cp = c; }
        else if (c >= 0xc2 && c <= 0xdf) { n = 2; cp = c & 31; }
        else if (c >= 0xe0 && c <= 0xef) { n = 3; cp = c & 15; if (c == 0xe0 && b(1) < 0xa0) return false; if (c == 0xed && b(1) > 0x9f) return false; }
        else if (c >= 0xf0 && c <= 0xf4) { n = 4; cp = c & 7; if (c == 0xf0 && b(1) < 0x90) return false; if (c == 0xf4 && b(1) > 0x8f) return false; }
        else return false;
        for (size_t k = 1; k < n; k++) { if (b(k) < 0x80 || b(k) > 0xbf) return false; cp = cp << 6 | (b(k) & 63); }
        if (cp < 0x20 || (cp >= 0x7f && cp <= 0x9f)) return false;
        if ((cp >= 0xfdd0 && cp <= 0xfdef) || (cp & 0xfffe) == 0xfffe) return false;
        i += n;
    }
    return true;
}
static bool wild(const std::string &s) { return s.find_first_of("+#") != std::string::npos; }
static bool good_filter(const std::string &f)
{
    if (!model::valid_filter(f)) return false;
    auto v = model::split(f);
    if (v[0] != "$share" || v.size() == 1) return true;
    if (v.size() == 2 || v[1].empty() || wild(v[1])) return false;
    return f.size() > 7 + v[1].size() + 1; // something after the share name
}
enum Place { TOPIC, FILTER, UNFILTER, PUSERKEY, PUSERVAL, PCTYPE, PRESP, PPAYLOAD, SUSER, UUSER, PKT_END, WTOPIC = PKT_END, CLIENTID, USERNAME, WCTYPE, WRESP, WUSER, WPAYLOAD, CUSER, NPLACES };
static const char *pname[] = {"PUBLISH topic", "SUBSCRIBE filter", "UNSUBSCRIBE filter", "PUBLISH user property key", "PUBLISH user property value", "content type", "response topic", "UTF-8 payload", "SUBSCRIBE user property",
    "UNSUBSCRIBE user property", "will topic", "client id", "username", "will content type", "will response topic", "will user property", "UTF-8 will payload", "CONNECT user property"};
static bool expected(int place, const std::string &s)
{
    if (!good(s)) return false;
    switch (place) {
    case TOPIC: case PRESP: case WRESP: return !s.empty() && !wild(s);
    case WTOPIC: return !wild(s);                       // an empty one means: no will
    case FILTER: case UNFILTER: return good_filter(s);
    case CLIENTID: case USERNAME: return !wild(s);      // unsafe characters, not allowed by default
    default: return true;
    }
}
struct T {
    Cl s{"S", 4}, p{"P", 5}, w{"W", 4}; int ver; long n = 0;
    void conn() { p = Cl("P", ver); p.o.keepalive = ver == 5 ? 60000 : 0; REQUIRE(p.connect(), "connect", "P could not connect"); }
    std::string bytes(int place, const std::string &x)
    {
        switch (place) {
        case TOPIC: return mq::publish(ver, x, "y", 0);
        case FILTER: return mq::subscribe(ver, 1, {{x, 0}});
        case UNFILTER: return mq::unsubscribe(ver, 1, {x});
        case PUSERKEY: return mq::publish(ver, "t", "y", 0, 0, false, false, {pu(x, "v")});
        case PUSERVAL: return mq::publish(ver, "t", "y", 0, 0, false, false, {pu("k", x)});
        case PCTYPE: return mq::publish(ver, "t", "y", 0, 0, false, false, {ps(P_CTYPE, x)});
        case PRESP: return mq::publish(ver, "t", "y", 0, 0, false, false, {ps(P_RESPTOPIC, x)});
        case PPAYLOAD: return mq::publish(ver, "t", x, 0, 0, false, false, {pn(P_PFI, 1)});
        case SUSER: return mq::subscribe(ver, 1, {{"q", 0}}, {pu(x, x)});
        case UUSER: return mq::unsubscribe(ver, 1, {"q"}, {pu(x, x)});
        }
        ConnectOpts o; o.ver = ver; o.id = "X"; if (ver == 5) o.keepalive = 60000; o.will = Will{"wt", "w", 0, false, {}};
        switch (place) {
        case WTOPIC: o.will->topic = x; break;
        case CLIENTID: o.id = x; break;
        case USERNAME: o.user = x; break;
        case WCTYPE: o.will->props = {ps(P_CTYPE, x)}; break;
        case WRESP: o.will->props = {ps(P_RESPTOPIC, x)}; break;
        case WUSER: o.will->props = {pu(x, x)}; break;
        case WPAYLOAD: o.will->payload = x; o.will->props = {pn(P_PFI, 1)}; break;
        case CUSER: o.props.push_back(pu(x, x)); break;
        }
        return mq::connect(o);
    }
    void test(int place, const std::string &x)
    {
        if (place == CLIENTID && (x.empty() || x == "S" || x == "W")) return;   // assigned ids are judged elsewhere
        if (place == USERNAME && x.empty()) return;
        bool ok = expected(place, x); n++;
        std::string what = std::string(pname[place]) + " " + hex(x, 80);
        if (place < PKT_END) {
            p.raw(bytes(place, x) + pingreq()); settle();
            if (!ok && !p.closed()) advance(500);
            REQUIRE(p.closed() == !ok, ok ? "refused" : "accepted", "%s was %s, version %d", what.c_str(), ok ? "refused" : "accepted", ver);
            auto v = s.publishes();
            bool pub = ok && (place == TOPIC ? x[0] != '$' : place >= PUSERKEY && place <= PPAYLOAD);
            REQUIRE(v.size() == (pub ? 1u : 0u), "delivery", "%s was delivered %zu times, version %d", what.c_str(), v.size(), ver);
            if (pub && place == TOPIC) REQUIRE(v[0].topic == x, "altered", "%s arrived as %s", what.c_str(), v[0].txt().c_str());
            if (ok) { REQUIRE(p.pop(PINGRESP), "alive", "no PINGRESP after %s", what.c_str()); p.rx.clear(); }
            else {
                p.pump(); bool d = false; for (auto &k : p.rx) if (k.type == DISCONNECT) { d = true; REQUIRE(k.rc >= 0x80, "reason", "reason %02x", k.rc); } else REQUIRE(k.type == PUBACK, "answered", "%s: answered with %s", what.c_str(), k.txt().c_str());
                if (ver == 5) REQUIRE(d, "reason", "no DISCONNECT after %s", what.c_str());
                conn();
            }
        } else {
            Cl x_; x_.o.ver = ver; x_.name = "X"; x_.open(); settle(); x_.raw(bytes(place, x)); settle();
            auto a = x_.pop();
            bool acc = a && a->type == CONNACK && a->rc == 0;
            REQUIRE(acc == ok, ok ? "refused" : "accepted", "%s was %s, version %d", what.c_str(), ok ? "refused" : "accepted", ver);
            if (!ok) { if (!x_.closed()) advance(500); REQUIRE(x_.closed(), "open", "refused, but the connection stays open: %s", what.c_str()); }
            else { x_.raw(pingreq()); settle(); REQUIRE(x_.pop(PINGRESP), "alive", "no PINGRESP after %s", what.c_str()); x_.raw(mq::disconnect(ver)); settle(); }
            x_.close(); settle();
        }
    }
    void start(int v, const char *extra) { static Server srv; ver = v; REQUIRE(srv.start(extra), "boot", "no start"); REQUIRE(s.connect() && s.subscribe({{"#", 0}}) && w.connect(), "connect", "S"); conn(); }
    ~T() { }
    void end() { count("strings", n); REQUIRE(w.ping() && s.ping(), "other", "another client is affected"); }
};
static int place_for(int ver)
{
    static const int v3[] = {TOPIC, FILTER, UNFILTER, WTOPIC, CLIENTID, USERNAME};
    if (ver < 5) return v3[choose(6, "place")];
    return choose(NPLACES, "place");
}
static const std::vector<std::string> &units()
{
    static const std::vector<std::string> u = {std::string("\0", 1), "\x01", "\x1f", "\x7f", "\xc2\x80", "\xc2\x9f", "\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xe0\x80\xaf", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf",
        "\xf0\x80\x80\xaf", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf7\xbf\xbf\xbf", "\xf8\x88\x80\x80\x80", "\xfe", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f\xa9", "\xc3\x28", "\xe2\x82\x41", "\xef\xbf\xbe", "\xef\xbf\xbf",
        "\xef\xb7\x90", "\xef\xb7\xaf", "\xf0\x9f\xbf\xbe", "\xf4\x8f\xbf\xbf", " ", "~", "\xc3\xa9", "\xc2\xa0", "\xdf\xbf", "\xe0\xa0\x80", "\xed\x9f\xbf", "\xee\x80\x80", "\xef\xbf\xbd", "\xef\xb7\x8f", "\xef\xb7\xb0",
        "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbd", "\xf0\x9f\xa9\xb0", "\xef\xbb\xbf", "+", "#", "/", "$", "/+", "/#"};
    return u;
}
CHECK(P25, "")
{
    T t;
    switch (choose(5, "part")) {
    case 0: { // every special character at every place of the string, between other characters
        int ver = 3 + choose(3, "version"); int place = place_for(ver); int fill = choose(3, "filler"); const std::string &u = units()[choose(units().size(), "character")];
        t.start(ver, ""); note("%s, character %s, filler %d", pname[place], hex(u).c_str(), fill);
        static const char *fills[] = {"a", "\xc3\xa9", "\xf0\x9f\xa9\xb0"};
        int most = thorough() ? 70 : 34;
        for (int pos = 0; pos <= most; pos++) { std::string pre; for (int i = 0; i < pos; i++) pre += fill == 0 || i % 5 == 3 ? fills[fill] : "a"; for (const char *post : {"", "b", "bbbbbbbbbbbbbbbbb", "\xc3\xa9"}) t.test(place, pre + u + post); }
        break; }
    case 1: { // every pair of bytes
        int off = choose(3, "offset"), hi = choose(256, "byte"); static const int offs[] = {0, 13, 15};
        t.start(5, ""); note("all pairs with first byte %02x at offset %d", hi, offs[off]);
        for (int lo = 0; lo < 256; lo++) t.test(TOPIC, std::string(offs[off], 'a') + char(hi) + char(lo));
        break; }
    case 2: { // every character of three bytes (and four, in steps), well formed and overlong
        int blk = choose(thorough() ? 64 + 512 : 64 + 64, "block"); t.start(5, ""); note("characters of block %d", blk);
        auto enc3 = [](uint32_t c) { return std::string{char(0xe0 | c >> 12), char(0x80 | (c >> 6 & 63)), char(0x80 | (c & 63))}; };
        auto enc4 = [](uint32_t c) { return std::string{char(0xf0 | c >> 18), char(0x80 | (c >> 12 & 63)), char(0x80 | (c >> 6 & 63)), char(0x80 | (c & 63))}; };
        if (blk < 64) { // refused ones cost a connection: all borders, and the surrogates and overlong ones in steps
            for (int i = 0; i < 1024; i++) { uint32_t c = blk * 1024 + i; bool g = good(enc3(c)); if (g || thorough() || i < 3 || i > 1020 || i % 61 == 0 || good(enc3(c - 1)) || good(enc3(c + 1))) t.test(PPAYLOAD, enc3(c)); }
        } else {
            uint32_t span = thorough() ? 0x200000 / 512 : 0x200000 / 64, start = (blk - 64) * span;
            for (uint32_t i = 0; i < span; i++) { uint32_t c = start + i; bool g = good(enc4(c)); uint32_t lo = c & 0xffff; if (lo < 2 || lo > 0xfffc || i < 2 || i + 2 >= span || (g && (thorough() || i % 37 == 0)) || i % 1021 == 0) t.test(PPAYLOAD, enc4(c)); }
        }
        break; }
    case 3: { // every short filter and topic over the characters with a meaning
        int ver = choose(2, "version") ? 5 : 4; int len = choose(thorough() ? 7 : 6, "length"), pl = choose(3, "place"), pre = choose(4, "prefix");
        static const char *prefixes[] = {"", "$share/", "$share/g/", "$share"};
        std::string p0 = prefixes[pre]; if (pre && pl == 0) prune();
        int first = len ? choose(5, "first") : 0;
        t.start(ver, ""); note("%s, all strings of length %d after '%s'", pname[pl], len, p0.c_str());
        int n = 1; for (int i = 1; i < len; i++) n *= 5;
        for (int k = 0; k < n; k++) { std::string s; int x = k; if (len) s += "a/+#$"[first]; for (int i = 1; i < len; i++) { s += "a/+#$"[x % 5]; x /= 5; } t.test(pl, p0 + s); }
        break; }
    case 4: { // configured maximum length; empty strings; unsafe characters allowed
        int ver = 3 + choose(3, "version"); int place = place_for(ver); int k = choose(4, "case");
        t.start(ver, k == 3 ? "allow_unsafe_clientid_chars true\nallow_unsafe_username_chars true\n" : k == 2 ? "" : "max_string_length 50\n");
        note("%s, case %d", pname[place], k);
        if (k == 0) { t.test(place, std::string(49, 'x')); t.test(place, std::string(50, 'x')); }
        else if (k == 1) {
            if (place == PPAYLOAD || place == WPAYLOAD) prune();
            std::string x(51, 'x');
            if (place < PKT_END) { t.p.raw(t.bytes(place, x)); settle(); advance(500); REQUIRE(t.p.closed(), "accepted", "%s of 51 characters accepted with max_string_length 50", pname[place]); REQUIRE(t.s.publishes().empty(), "delivery", "delivered"); }
            else { Cl c; c.o.ver = ver; c.open(); settle(); c.raw(t.bytes(place, x)); settle(); advance(500); auto a = c.pop(); REQUIRE(!(a && a->rc == 0) && c.closed(), "accepted", "%s of 51 characters accepted with max_string_length 50", pname[place]); }
        } else if (k == 2) t.test(place, "");
        else {
            if (place != CLIENTID && place != USERNAME) prune();
            for (const char *x : {"a+b", "#", "+", "a#"}) { Cl c; c.o.ver = ver; c.open(); settle(); c.raw(t.bytes(place, x)); settle(); auto a = c.pop(); REQUIRE(a && a->type == CONNACK && a->rc == 0, "refused", "%s '%s' refused although allowed", pname[place], x); c.close(); settle(); }
        }
        break; }
    }
    t.end();
}
