// P12 WebSocket transport is transparent.
#include "ws.h"
#include "model.h"
using namespace mc;
using namespace mq;
static const char *LISTEN = "listen {\nport 8080\nprotocol websockets\ninet_protocol ip4\n}\n";
struct World {
    Server srv; Cl o{"O", 4};
    void start(const std::string &c = "") { REQUIRE(srv.start(std::string(LISTEN) + c), "boot", "no start"); REQUIRE(o.connect() && o.subscribe({{"#", 2}}), "connect", "O"); o.rx.clear(); }
};
static void open(Cl &c, ws::Conn &w) { c.port = 8080; c.open(); settle(); w = ws::Conn(); w.c = &c; }
static void upgrade(Cl &c, ws::Conn &w) { open(c, w); c.raw(ws::request()); settle(); w.pump(); REQUIRE(w.up, "upgrade", "not upgraded: %s", w.http.c_str()); }
static std::vector<std::string> stream(int ver)
{
    bool f = ver == 5; ConnectOpts o; o.ver = ver; o.id = "X"; o.keepalive = 60000; o.will = Will{"o/will", "the will", 1, false, f ? Props{ps(P_CTYPE, "text")} : Props{}};
    return {mq::connect(o), mq::subscribe(ver, 1, {{"x/#", 2}}, f ? Props{pn(P_SUBID, 300)} : Props{}), pingreq(), mq::publish(ver, "x/y", std::string("fir\0st", 6), 2, 5), ack(ver, PUBREL, 5), mq::publish(ver, "o/2", std::string(130, 'z'), 1, 6), mq::unsubscribe(ver, 7, {"x/#"}), mq::publish(ver, "x/y", "last", 0), pingreq()};
}
static std::string observe(World &w, Cl &c, const std::function<std::vector<Pkt>()> &all)
{
    std::string r;
    for (int i = 0; i < 6; i++) { bool more = false; for (auto &k : all()) { r += k.txt() + ":" + std::to_string(k.payload.size()) + "; "; (void)more; } settle(); }
    r += c.closed() ? "closed" : "open"; c.close(); settle(); advance(3000); r += " | O: "; for (auto &k : w.o.publishes()) r += k.topic + "=" + k.payload + "; ";
    return r;
}
static void transparent()
{
    int ver = 3 + choose(3, "version"), mode = choose(8, "mode"), mask = choose(3, "mask"), buf = choose(2, "buffer");
    World w; w.start(buf ? "client_initial_buffer_size 64\n" : ""); auto parts = stream(ver); std::string b; for (auto &p : parts) b += p;
    note("version %d, mode %d, mask %d", ver, mode, mask);
    static const char *masks[] = {"\x12\xa5\x00\xff", nullptr, "\0\0\0\0"}; const char *m = masks[mask];
    Cl t("X", ver); t.open(); settle(); for (auto &p : parts) { t.raw(p); settle(); }
    std::string ref = observe(w, t, [&] { return t.all(); });
    auto run = [&](const std::vector<std::string> &writes, size_t rmax, const std::string &how, const std::vector<std::string> &pongs = {}) {
        Cl c("X", ver); ws::Conn k; upgrade(c, k); c.c->read_max = rmax;
        for (auto &x : writes) { c.raw(x); if (rmax == SIZE_MAX) settle(); }
        settle(); std::string got = observe(w, c, [&] { return k.all(); }); count("divisions");
        REQUIRE(got == ref, "differs", "%s gives\n  %s\nbut plain TCP gives\n  %s", how.c_str(), got.c_str(), ref.c_str());
        REQUIRE(k.pongs == pongs, "pong", "%s: %zu pongs for %zu pings, or with other content", how.c_str(), k.pongs.size(), pongs.size()); };
    auto frames = [&](size_t n) { std::vector<std::string> v; for (size_t i = 0; i < b.size(); i += n) v.push_back(ws::frame(ws::BIN, b.substr(i, n), m)); return v; };
    switch (mode) {
    case 0: for (size_t i = 0; i <= b.size(); i++) run({ws::frame(ws::BIN, b.substr(0, i), m), ws::frame(ws::BIN, b.substr(i), m)}, SIZE_MAX, "frames cut at " + std::to_string(i)); break;
    case 1: for (size_t n = 1; n <= b.size(); n++) run(frames(n), SIZE_MAX, "frames of " + std::to_string(n)); break;
    case 2: for (size_t n = 1; n <= b.size(); n += n < 40 ? 1 : 7) for (size_t r : {1, 2, 3, 5, 16, 64, 100}) run(frames(n), r, "frames of " + std::to_string(n) + " in reads of " + std::to_string(r)); break;
    case 3: { std::string f = ws::frame(ws::BIN, b, m); for (size_t i = 1; i < f.size(); i++) run({f.substr(0, i), f.substr(i)}, SIZE_MAX, "one frame, cut at " + std::to_string(i)); break; }
    case 4: { std::string f; for (auto &x : frames(50)) f += x; for (size_t i = 1; i < f.size(); i++) run({f.substr(0, i), f.substr(i)}, SIZE_MAX, "frames of 50, cut at " + std::to_string(i)); break; }
    case 5: // pings, empty frames and pongs between all frames
        for (size_t n : {1, 7, 40, 125, 126}) for (size_t pn : {0, 1, 20, 125}) for (size_t r : {(size_t)1, (size_t)3, (size_t)17, SIZE_MAX}) {
            std::vector<std::string> v, pongs; int i = 0;
            for (auto &x : frames(n)) { v.push_back(x); if (i++ % 3 == 0 && i < 40) { std::string pl(pn, char('a' + i % 26)); v.push_back(ws::frame(ws::PING, pl, m) + ws::frame(ws::BIN, "", m) + ws::frame(ws::PONG, "unasked", m)); pongs.push_back(pl); } }
            run(v, r, "pings of " + std::to_string(pn) + " between frames of " + std::to_string(n) + " in reads of " + std::to_string(r), pongs); }
        break;
    case 7: // messages of several fragments, with control frames between them
        for (size_t n : {1, 2, 9, 40, 126}) for (int per : {2, 3, 1000000}) for (int ctl : {0, 1}) for (size_t r : {(size_t)1, (size_t)5, SIZE_MAX}) {
            std::vector<std::string> v, pongs; int j = 0;
            for (size_t i = 0; i < b.size(); i += n, j++) { bool last = i + n >= b.size(); v.push_back(ws::frame(j % per == 0 ? ws::BIN : ws::CONT, b.substr(i, n), m, last || j % per == per - 1)); if (ctl && j % 2 && j < 30) { v.push_back(ws::frame(ws::PING, "p" + std::to_string(j), m)); pongs.push_back("p" + std::to_string(j)); } if (j == 3 && per > 3 && !last) v.push_back(ws::frame(ws::CONT, "", m, false)); }
            run(v, r, "fragments of " + std::to_string(n) + ", " + std::to_string(per) + " a message, in reads of " + std::to_string(r), pongs); }
        break;
    case 6: { // two cuts within the bytes of a few frames
        std::string f = ws::frame(ws::BIN, parts[0].substr(0, 9), m) + ws::frame(ws::PING, "hi", m) + ws::frame(ws::BIN, parts[0].substr(9) + parts[1], m) + ws::frame(ws::BIN, "", m); std::string rest; for (size_t i = 2; i < parts.size(); i++) rest += ws::frame(ws::BIN, parts[i], m);
        size_t i = 1 + choose(f.size() - 1, "cut"); if (!thorough() && i % 2) prune();
        for (size_t j = i + 1; j < f.size(); j++) run({f.substr(0, i), f.substr(i, j - i), f.substr(j), rest}, SIZE_MAX, "cuts at " + std::to_string(i) + " and " + std::to_string(j), {"hi"});
        break; }
    }
}
static void sizes()
{
    static const int ss[] = {0, 1, 20, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 300, 5000, 65520, 65521, 65522, 65523, 65524, 65525, 65526, 65527, 65528, 65529, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 70000, 300000};
    int n = ss[choose(sizeof ss / sizeof *ss, "size")], ver = choose(2, "version") ? 5 : 4, q = choose(3, "qos"), way = choose(4, "way");
    World w; w.start(way & 1 ? "client_initial_buffer_size 64\n" : ""); Cl c("X", ver), p("P", 4); ws::Conn k; upgrade(c, k); c.o.keepalive = ver == 5 ? 60000 : 0;
    c.raw(ws::frame(ws::BIN, mq::connect(c.o))); settle(); REQUIRE(k.all().size() == 1, "connect", "no CONNACK");
    c.raw(ws::frame(ws::BIN, mq::subscribe(ver, 1, {{"t", 2}}))); settle(); REQUIRE(k.all().size() == 1, "connect", "no SUBACK");
    std::string pl; for (int i = 0; i < n; i++) pl += char('a' + i % 23);
    note("%d bytes, version %d, q%d, way %d", n, ver, q, way);
    // to the server, in one frame
    if (way >= 2) c.c->read_max = n > 50000 ? 1000 : 13;
    c.raw(ws::frame(ws::BIN, mq::publish(ver, "u", pl, q, q ? 9 : 0))); settle();
    auto v = w.o.publishes(); REQUIRE(v.size() == 1 && v[0].payload == pl, "lost", "%zu messages", v.size()); if (q) { auto a = k.all(); REQUIRE(a.size() == 1 && a[0].type == (q == 1 ? PUBACK : PUBREC), "ack", "%zu", a.size()); }
    // from the server
    REQUIRE(p.connect(), "connect", "P"); if (way >= 2) c.c->write_max = n > 50000 ? 777 : 7;
    p.raw(mq::publish(4, "t", pl, q, q ? 1 : 0)); settle(); auto a = k.all(); 
    REQUIRE(a.size() == 1 && a[0].payload == pl && a[0].qos == q, "lost", "%zu messages arrived", a.size());
    c.raw(ws::frame(ws::BIN, pingreq())); settle(); a = k.all(); REQUIRE(a.size() == 1 && a[0].type == PINGRESP, "alive", "no PINGRESP");
}
// Header variants, each cut anywhere
static void handshake()
{
    int part = choose(3, "part"); World w; w.start(); Cl c("X", 4); ws::Conn k;
    if (part == 0) {
        static const std::string keys[] = {"dGhlIHNhbXBsZSBub25jZQ==", "AAAAAAAAAAAAAAAAAAAAAA==", "x3JJHMbDL1EzLkh9GBhXDw=="};
        int ki = choose(3, "key"), variant = choose(6, "variant"); std::string key = keys[ki];
        std::string r, sub = "mqtt";
        switch (variant) {
        case 0: r = ws::request(key); break;
        case 1: sub = "mqttv3.1"; r = ws::request(key, "mqttv3.1"); break;
        case 2: r = "GET / HTTP/1.1\r\nsec-websocket-version:13\r\nsec-websocket-key:" + key + "\r\nsec-websocket-protocol:mqtt\r\nconnection:keep-alive, upgrade\r\nupgrade:WebSocket\r\nHost:a\r\n\r\n"; break;
        case 3: r = ws::request(key, "chat, mqtt"); break;
        case 4: r = ws::request(key); r.insert(r.size() - 2, "X-Long: " + std::string(3000, 'q') + "\r\nCookie: a=b; c:d\r\n"); break;
        case 5: r = ws::request(key); r.replace(r.find("/mqtt"), 5, "/a/long/path?with=query&x=y:z"); break;
        }
        note("variant %d", variant);
        int step = r.size() > 1000 && !thorough() ? 31 : 1;
        for (size_t i = 0; i < r.size(); i += i + 10 < r.size() ? step : 1) {
            open(c, k); if (i) { c.raw(r.substr(0, i)); settle(); k.pump(); REQUIRE(k.raw.empty() && k.http.empty(), "early", "answered after %zu of %zu bytes: %s", i, r.size(), k.raw.c_str()); } c.raw(r.substr(i)); settle(); k.pump(); count("divisions");
            REQUIRE(k.up, "upgrade", "request cut at %zu of %zu: not upgraded: %s", i, r.size(), k.http.c_str());
            REQUIRE(k.http.find("\r\nSec-WebSocket-Accept: " + ws::accept_key(key) + "\r\n") != std::string::npos && k.http.find("\r\nSec-WebSocket-Protocol: " + sub + "\r\n") != std::string::npos && k.http.find("\r\nUpgrade: websocket\r\n") != std::string::npos && k.http.find("\r\nConnection: Upgrade\r\n") != std::string::npos, "answer", "answer %s", k.http.c_str());
            c.raw(ws::frame(ws::BIN, mq::connect(c.o) + pingreq())); settle(); auto a = k.all();
            REQUIRE(!c.closed() && a.size() == 2 && a[0].type == CONNACK && a[1].type == PINGRESP, "after", "request cut at %zu of %zu: %zu packets after the upgrade", i, r.size(), a.size());
            c.close(); settle();
        }
        for (size_t n : {1, 2, 3, 50}) { open(c, k); for (size_t i = 0; i < r.size(); i += n) { c.raw(r.substr(i, n)); settle(); } k.pump(); REQUIRE(k.up, "upgrade", "request in pieces of %zu: not upgraded", n); c.raw(ws::frame(ws::BIN, mq::connect(c.o) + pingreq())); settle(); REQUIRE(k.all().size() == 2 && !c.closed(), "after", "pieces of %zu", n); c.close(); settle(); }
        // however few bytes the socket takes of the answer
        for (size_t n : {1, 2, 3, 50, 100}) { open(c, k); c.c->write_max = n; c.raw(r); settle(); k.pump(); REQUIRE(k.up, "partial-answer", "answer written in pieces of %zu is broken", n); c.raw(ws::frame(ws::BIN, mq::connect(c.o) + pingreq())); settle(); REQUIRE(k.all().size() == 2 && !c.closed(), "partial-answer", "answer written in pieces of %zu is broken: %s", n, hex(k.raw).c_str()); c.close(); settle(); }
    } else if (part == 1) { // refused
        struct B { const char *what; std::string r; };
        auto without = [](const std::string &h) { std::string r = ws::request(); auto p = r.find(h), e = r.find("\r\n", p); return r.erase(p, e + 2 - p); };
        auto with = [](const std::string &a, const std::string &b) { std::string r = ws::request(); return r.replace(r.find(a), a.size(), b); };
        static const std::vector<B> bad = {{"no upgrade header", without("Upgrade:")}, {"no connection header", without("Connection:")}, {"no key", without("Sec-WebSocket-Key")}, {"no protocol", without("Sec-WebSocket-Protocol")}, {"no version", without("Sec-WebSocket-Version")},
            {"version 12", with("Version: 13", "Version: 12")}, {"version text", with("Version: 13", "Version: abc")}, {"other protocol", with("Protocol: mqtt", "Protocol: chat")}, {"other upgrade", with("Upgrade: websocket", "Upgrade: h2c")}, {"POST", with("GET ", "POST ")},
            {"no http", std::string("hello\r\n\r\n")}, {"two fields", with("GET /mqtt HTTP/1.1", "GET /mqtt")}, {"line without colon", with("Origin: ", "Origin ").replace(ws::request().find("http:"), 5, "http ")}, {"plain MQTT", mq::connect(c.o)}, {"HTTP/2", std::string("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n")}, {"endless", "GET / HTTP/1.1\r\nX: " + std::string(20000, 'x')}};
        const B &x = bad[choose(bad.size(), "request")]; int cut = choose(8, "cut"); note("%s", x.what);
        open(c, k); size_t i = x.r.size() * cut / 8; if (i) { c.raw(x.r.substr(0, i)); settle(); } if (!c.closed()) c.raw(x.r.substr(i)); settle();
        if (!c.closed() && x.what == std::string("plain MQTT")) advance(60000, 1000);
        if (!c.closed()) { c.raw(ws::frame(ws::BIN, mq::connect(c.o) + mq::publish(4, "o/a", "never", 0))); settle(); advance(1000); }
        k.pump(); REQUIRE(!k.up, "accepted", "%s was accepted", x.what); REQUIRE(c.closed(), "open", "%s: connection stays open", x.what);
        static const std::vector<std::string> silent = {"plain MQTT", "endless", "version text"};
        if (std::find(silent.begin(), silent.end(), x.what) == silent.end()) REQUIRE(k.http.compare(0, 12, "HTTP/1.1 400") == 0, "answer", "%s: answer '%s' '%s'", x.what, k.http.c_str(), k.raw.c_str());
        if (x.what == std::string("version 12")) REQUIRE(k.http.find("Sec-WebSocket-Version: 13") != std::string::npos, "answer", "no version in the answer");
    } else { // frames that are not allowed, and close
        int kind = choose(10, "kind"), when = choose(2, "when"), ver = choose(2, "version") ? 5 : 4; c.o.ver = ver; c.o.keepalive = ver == 5 ? 60000 : 0; c.o.will = Will{"o/w", "will", 0, false, {}}; upgrade(c, k);
        c.raw(ws::frame(ws::BIN, mq::connect(c.o))); settle(); REQUIRE(k.all().size() == 1, "connect", "X"); note("kind %d", kind);
        std::string f;
        switch (kind) {
        case 0: f = ws::frame(ws::CLOSE, std::string("\x03\xe8", 2)); break;
        case 1: f = ws::frame(ws::CLOSE, ""); break;
        case 2: f = ws::frame(ws::TEXT, pingreq()); break;
        case 3: f = ws::frame(3, "abc"); break;
        case 4: f = ws::frame(ws::BIN, pingreq(), "abcd", true, 0, 1); break;
        case 5: f = ws::frame(11, "x"); break;
        case 6: f = ws::frame(ws::CLOSE, std::string("\x03\xe9", 2) + "bye"); break;
        case 8: f = ws::frame(ws::CONT, pingreq()); break;
        case 9: f = ws::frame(ws::BIN, pingreq(), "abcd", false) + ws::frame(ws::CONT, "", "abcd", true) + ws::frame(ws::CONT, pingreq()); break;
        case 7: f = ws::frame(ws::BIN, mq::publish(ver, "o/#", "bad", 0)); break;
        }
        std::string pre = when ? ws::frame(ws::BIN, mq::publish(ver, "o/a", "before", 0)) : "";
        for (size_t cut = 0; cut < f.size(); cut++) {
            if (cut) { upgrade(c, k); c.raw(ws::frame(ws::BIN, mq::connect(c.o))); settle(); REQUIRE(k.all().size() == 1, "connect", "X"); }
            if (cut) { c.raw(pre + f.substr(0, cut)); settle(); } 
            if (!c.closed()) { c.raw((cut ? "" : pre) + f.substr(cut) + ws::frame(ws::BIN, mq::publish(ver, "o/a", "after", 0))); settle(); } advance(1000);
            REQUIRE(c.closed(), "open", "connection stays open after frame kind %d cut at %zu", kind, cut); k.pump();
            advance(3000); auto v = w.o.publishes(); std::vector<std::string> got; for (auto &x : v) got.push_back(x.payload);
            std::vector<std::string> want; if (when) want.push_back("before"); want.push_back("will");
            std::vector<std::string> alt = {"will"}; // what came in the same read as the offending frame may be lost with the connection
            REQUIRE(got == want || (got == alt && (cut == 0 || cut >= 2) && kind >= 2 && kind != 6), "effect", "frame kind %d cut at %zu: O got %s", kind, cut, model::join(got).c_str());
        }
    }
    REQUIRE(w.o.ping(), "other", "another client is affected");
}
// slow reader: frames stay whole whatever the socket accepts
static void slow()
{
    World w; int ver = choose(2, "version") ? 5 : 4; w.start("client_initial_buffer_size 64\nclient_max_write_buffer_size 4096\n"); Cl c("X", ver), p("P", 4); ws::Conn k; upgrade(c, k); c.o.keepalive = ver == 5 ? 60000 : 0; c.o.clean = true;
    c.raw(ws::frame(ws::BIN, mq::connect(c.o) + mq::subscribe(ver, 1, {{"t", 1}}))); settle(); REQUIRE(k.all().size() == 2 && p.connect(), "connect", "X");
    int depth = param("depth", thorough() ? 6 : 4), n = 0, npings = 0; std::vector<std::string> q1, q0; c.c->out_space = 0;
    static const int sz[] = {5, 120, 1000, 3000, 5000}; size_t space = 0;
    for (int i = 0; i < depth; i++) {
        int o = choose(10, "operation");
        if (o < 5) { std::string pl = std::to_string(n++) + std::string(sz[o], 'm'); note("publish %d bytes q0", sz[o]); p.publish("t", pl, 0); q0.push_back(pl); }
        else if (o == 5) { std::string pl = std::to_string(n++) + std::string(500, 'n'); note("publish 500 bytes q1"); p.publish("t", pl, 1); q1.push_back(pl); }
        else if (o == 6) { npings++; note("ping frame"); c.raw(ws::frame(ws::PING, "pp" + std::to_string(npings))); settle(); }
        else { space = o == 7 ? 1 : o == 8 ? 130 : 1500; note("socket takes %zu", space); c.c->out_space = space; sim::feed(c.c, ""); settle(); k.pump(); }
        settle(); k.pump();
    }
    c.c->out_space = SIZE_MAX; sim::feed(c.c, ""); settle(); advance(1000);
    std::vector<std::string> got; size_t i0 = 0, i1 = 0; std::vector<unsigned> ids;
    for (auto &x : k.all()) { if (x.type != PUBLISH) continue; if (x.qos) { REQUIRE(i1 < q1.size() && q1[i1] == x.payload, "lost", "QoS 1 message missing or out of order"); i1++; ids.push_back(x.id); } else { while (i0 < q0.size() && q0[i0] != x.payload) { i0++; count("dropped-q0"); } REQUIRE(i0 < q0.size(), "content", "unexpected message '%.20s'", x.payload.c_str()); i0++; } }
    REQUIRE(!c.closed(), "closed", "closed"); REQUIRE(i1 == q1.size(), "lost", "%zu of %zu QoS 1 messages arrived", i1, q1.size());
    REQUIRE((int)k.pongs.size() == npings, "pong", "%zu pongs for %d pings", k.pongs.size(), npings); REQUIRE(k.raw.empty() && c.rbuf.empty(), "cut", "incomplete frame or packet at the end");
    c.raw(ws::frame(ws::BIN, pingreq())); settle(); auto a = k.all(); REQUIRE(a.size() == 1 && a[0].type == PINGRESP, "alive", "no PINGRESP");
    p.publish("t", "resumed", 0); a = k.all(); REQUIRE(a.size() == 1 && a[0].payload == "resumed", "resume", "delivery doesn't resume");
}
CHECK(P12, "") { switch (choose(4, "part")) { case 0: transparent(); break; case 1: sizes(); break; case 2: handshake(); break; case 3: slow(); break; } }
