// P11 Parsing does not depend on how bytes arrive.
#include "mqtt.h"
#include "model.h"
using namespace mc;
using namespace mq;
struct Stream { const char *name; int ver; std::vector<std::string> p; };
static std::vector<Stream> streams()
{
    std::vector<Stream> v;
    for (int ver : {3, 4, 5}) {
        bool f = ver == 5; ConnectOpts o; o.ver = ver; o.id = "X"; o.keepalive = 60000; o.user = "user"; o.pass = "pw"; o.will = Will{"o/will", "the will", 1, false, f ? Props{ps(P_CTYPE, "text"), pu("a", "b")} : Props{}};
        if (f) o.props = {pn(P_RECVMAX, 20), pn(P_ALIASMAX, 0), pu("k", "v")};
        Props al = f ? Props{pn(P_ALIAS, 1), pu("u", "v"), ps(P_CORR, std::string("\x30\x04\0\1", 4))} : Props{};
        v.push_back({"everything", ver, {mq::connect(o), mq::subscribe(ver, 1, {{"x/#", 2}, {"+/y", 1}}, f ? Props{pn(P_SUBID, 300)} : Props{}), pingreq(), mq::publish(ver, "x/y", "first", 2, 5, false, false, al), ack(ver, PUBREL, 5),
            f ? mq::publish(ver, "", "second", 1, 6, false, false, {pn(P_ALIAS, 1)}) : mq::publish(ver, "x/y", "second", 1, 6), mq::publish(ver, "o/r", "kept", 0, 0, true), mq::unsubscribe(ver, 7, {"+/y"}), mq::publish(ver, "x/y", "", 0), pingreq()}});
        v.push_back({"normal end", ver, {mq::connect(o), mq::subscribe(ver, 1, {{"x/#", 2}}), mq::publish(ver, "o/a", "1", 1, 1), pingreq(), mq::disconnect(ver)}});
        v.push_back({"ends abruptly", ver, {mq::connect(o), mq::publish(ver, "o/a", "1", 1, 1), pingreq(), mq::publish(ver, "o/a", "2", 0).substr(0, 6)}});
        v.push_back({"malformed", ver, {mq::connect(o), mq::publish(ver, "o/a", "1", 0), std::string("\x36\x02\0\0", 4), mq::publish(ver, "o/a", "not any more", 0)}});
        v.push_back({"invalid topic", ver, {mq::connect(o), mq::publish(ver, "o/a", "1", 1, 2), mq::publish(ver, "o/+", "bad", 0), mq::publish(ver, "o/a", "not any more", 0)}});
        v.push_back({"second CONNECT", ver, {mq::connect(o), mq::publish(ver, "o/a", "1", 1, 2), mq::connect(o), mq::publish(ver, "o/a", "not any more", 0)}});
    }
    { ConnectOpts o; o.ver = 4; o.id = "X"; std::string c = mq::connect(o); c[8] = 9; v.push_back({"unsupported version", 5, {c, mq::publish(4, "o/a", "never", 0)}}); }
    { ConnectOpts o; o.ver = 4; o.id = "X#"; v.push_back({"refused id", 4, {mq::connect(o), mq::publish(4, "o/a", "never", 0)}}); }
    v.push_back({"no CONNECT", 4, {mq::publish(4, "o/a", "never", 0), pingreq()}});
    return v;
}
struct World {
    Cl o{"O", 4}; Server srv; std::string ids;
    void start(const std::string &conf) { REQUIRE(srv.start(conf), "boot", "no start"); REQUIRE(o.connect() && o.subscribe({{"#", 2}}), "connect", "O"); o.rx.clear(); }
    // Feeds the bytes in the given pieces; returns everything that could be observed
    std::string run(int ver, const std::vector<std::string> &pieces, size_t read_max, bool wait, Cl *x0 = nullptr)
    {
        Cl x("X", ver); Cl &c = x0 ? *x0 : x; c.open(); settle(); c.c->read_max = read_max;
        for (auto &p : pieces) { c.raw(p); if (wait) settle(); }
        settle(); return finish(c);
    }
    std::string finish(Cl &c)
    {
        std::string r;
        for (int i = 0; i < 10; i++) { c.pump(); bool more = false; for (auto &k : c.rx) { r += k.txt() + "; "; if (k.type == PUBLISH && k.qos && !c.closed()) { c.raw(ack(c.o.ver, k.qos == 1 ? PUBACK : PUBREC, k.id)); more = true; } if (k.type == PUBREL && !c.closed()) { c.raw(ack(c.o.ver, PUBCOMP, k.id)); more = true; } } c.rx.clear(); if (!more) break; settle(); }
        advance(300); c.pump(); for (auto &k : c.rx) r += k.txt() + "; "; c.rx.clear();
        r += c.closed() ? "closed " : "open "; c.close(); settle(); advance(3000); r += "| O: ";
        for (auto &k : o.publishes()) r += k.txt().substr(0, k.txt().find(" id")) + (mq::find(k.props, P_CTYPE) ? "+" : "") + "; ";
        // what is left behind
        Cl z("Z", 5); REQUIRE(z.connect() && z.subscribe({{"#", 2}}), "connect", "Z"); advance(100); r += "| retained: "; for (auto &k : z.publishes()) { r += k.topic + "=" + k.payload + "; "; }
        z.publish("o/r", "", 0, true); o.publishes(); z.disconnect();
        return r;
    }
};
static std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x; return s; }
static bool lenient; // after a protocol error or DISCONNECT, replies to earlier packets may be lost with the connection
static void judge(const std::string &want, const std::string &got, const std::string &how) {
    count("divisions"); bool same = want == got;
    if (!same && lenient) { auto cut = [](const std::string &s) { auto p = s.find("closed | O:"); return std::make_pair(s.substr(0, p), p == std::string::npos ? std::string("?") : s.substr(p)); }; auto w = cut(want), g = cut(got); same = w.second == g.second && w.first.compare(0, g.first.size(), g.first) == 0; }
    REQUIRE(same, "differs", "%s gives\n  %s\nbut packet by packet gives\n  %s", how.c_str(), got.c_str(), want.c_str()); }
CHECK(P11, "")
{
    static const auto all = streams();
    World w;
    switch (choose(4, "part")) {
    case 0: { // one or two cuts anywhere, chunk sizes, single reads
        const Stream &s = all[choose(all.size(), "stream")]; std::string b = join(s.p); int mode = choose(4, "mode");
        w.start(choose(2, "buffer") ? "client_initial_buffer_size 64\n" : ""); note("%s version %d, %zu bytes, mode %d", s.name, s.ver, b.size(), mode);
        lenient = (s.ver < 5 && s.name != std::string("everything") && s.name != std::string("ends abruptly")) || s.name == std::string("normal end");
        std::string ref = w.run(s.ver, s.p, SIZE_MAX, true); sample(s.name + (": " + ref));
        if (mode == 0) { judge(ref, w.run(s.ver, {b}, SIZE_MAX, true), "one piece"); for (size_t i = 1; i < b.size(); i++) judge(ref, w.run(s.ver, {b.substr(0, i), b.substr(i)}, SIZE_MAX, true), "cut at " + std::to_string(i)); }
        else if (mode == 1) for (size_t n = 1; n < std::min<size_t>(b.size(), 70); n++) { std::vector<std::string> v; for (size_t i = 0; i < b.size(); i += n) v.push_back(b.substr(i, n)); judge(ref, w.run(s.ver, v, SIZE_MAX, true), "pieces of " + std::to_string(n)); }
        else if (mode == 2) for (size_t n = 1; n < std::min<size_t>(b.size(), 130); n++) judge(ref, w.run(s.ver, {b}, n, false), "reads of " + std::to_string(n));
        else { // two cuts: first chosen, second exhaustive
            size_t i = 1 + choose(b.size() - 1, "cut"); if (!thorough() && i % 2 != 1) prune();
            for (size_t j = i + 1; j < b.size(); j++) judge(ref, w.run(s.ver, {b.substr(0, i), b.substr(i, j - i), b.substr(j)}, SIZE_MAX, true), "cuts at " + std::to_string(i) + " and " + std::to_string(j));
        }
        break; }
    case 1: { // the border between two packets at every place of the read buffer, wrapping and growing
        static const int sizes[] = {1, 30, 61, 62, 63, 64, 65, 100, 127, 128, 129, 200, 300, 5000};
        int ver = choose(2, "version") ? 5 : 4, a = choose(14, "first size"), bsz = choose(14, "second size"), init = choose(2, "buffer") ? 64 : 256;
        w.start("client_initial_buffer_size " + std::to_string(init) + "\n"); note("version %d, payloads of %d and %d bytes, buffer %d", ver, sizes[a], sizes[bsz], init);
        auto pay = [](int n, char c) { std::string s; for (int i = 0; i < n; i++) s += char(c + i % 23); return s; };
        ConnectOpts o; o.ver = ver; o.id = "X"; o.keepalive = ver == 5 ? 60000 : 0; std::string cn = mq::connect(o);
        std::string p1 = mq::publish(ver, "o/1", pay(sizes[a], 'a'), 1, 1), p2 = mq::publish(ver, "o/2", pay(sizes[bsz], 'A'), 0), b = p1 + p2 + pingreq() + p2;
        Cl x("X", ver); REQUIRE(x.connect(), "connect", "X");
        static const int chunk[] = {1, 2, 3, 7, 13, 32, 63, 64, 65, 127, 1000, 100000};
        for (int rm : chunk) for (int n : chunk) {
            if (!thorough() && b.size() > 2000 && (rm < 7 || n < 7)) continue;
            x.c->read_max = rm; for (size_t i = 0; i < b.size(); i += n) { x.raw(b.substr(i, n)); if (n > 2) settle(); } settle(); count("divisions");
            REQUIRE(!x.closed(), "closed", "pieces of %d, reads of %d: closed", n, rm);
            auto v = w.o.publishes(); REQUIRE(v.size() == 3 && v[0].topic == "o/1" && v[0].payload == pay(sizes[a], 'a') && v[1].payload == pay(sizes[bsz], 'A') && v[2].payload == v[1].payload, "differs", "pieces of %d, reads of %d: %zu messages arrived, or with other content", n, rm, v.size());
            auto k = x.all(); REQUIRE(k.size() == 2 && k[0].type == PUBACK && k[1].type == PINGRESP, "differs", "pieces of %d, reads of %d: %zu replies", n, rm, k.size());
        }
        break; }
    case 2: { // two clients on the same thread at once, each cut anywhere
        int ver = choose(2, "version") ? 5 : 4; size_t step = thorough() ? 1 : 3; w.start("thread_count 1\nclient_initial_buffer_size 64\n");
        auto mk = [&](const std::string &id) { ConnectOpts o; o.ver = ver; o.id = id; o.keepalive = ver == 5 ? 60000 : 0; return mq::connect(o) + mq::subscribe(ver, 1, {{id + "/+", 1}}) + mq::publish(ver, id + "/q", "for-" + id, 1, 9) + pingreq(); };
        std::string A = mk("A"), B = mk("B"); size_t i = choose(A.size() / step, "cut") * step + 1; note("version %d, first cut at %zu", ver, i);
        for (size_t j = 1; j < B.size(); j += step) {
            Cl a("A", ver), b("B", ver); a.open(); b.open(); settle();
            a.raw(A.substr(0, i)); settle(); b.raw(B.substr(0, j)); settle(); a.raw(A.substr(i)); settle(); b.raw(B.substr(j)); settle(); count("divisions");
            for (Cl *c : {&a, &b}) { std::string r; for (auto &k : c->all()) r += k.txt().substr(0, 30) + ";"; std::string o = c->name; int np = 0, na = 0, ng = 0; c->rx.clear();
                np = r.find("PUBLISH '" + o + "/q' 'for-" + o) != std::string::npos; na = r.find("PUBACK id9") != std::string::npos && r.find("CONNACK") == 0; ng = r.find("PINGRESP") != std::string::npos && r.find("SUBACK id1") != std::string::npos;
                REQUIRE(np && na && ng && !c->closed(), "differs", "cuts at %zu and %zu: client %s got %s", i, j, o.c_str(), r.c_str()); }
            a.disconnect(); b.disconnect(); w.o.publishes();
        }
        break; }
    case 3: { // the peer closes its side right behind the bytes
        const Stream &s = all[choose(all.size(), "stream")]; std::string b = join(s.p); w.start(""); 
        int how = choose(3, "reads"); note("%s version %d, closed right behind the bytes", s.name, s.ver);
        Cl x("X", s.ver); x.open(); settle(); x.c->read_max = how == 0 ? SIZE_MAX : how == 1 ? 1 : 16; x.raw(b); x.close(); settle(); advance(3000);
        std::vector<std::string> got; for (auto &k : w.o.publishes()) got.push_back(k.payload);
        std::vector<std::string> want; std::string n = s.name;
        if (n == "everything") want = {"first", "second", "kept", "", "the will"}; else if (n == "normal end") want = {"1"}; else if (n == "unsupported version" || n == "refused id" || n == "no CONNECT") want = {}; else want = {"1", "the will"};
        REQUIRE(got == want, "lost", "bytes followed by the end of the connection: O got %s instead of %s", model::join(got).c_str(), model::join(want).c_str());
        break; }
    }
}
