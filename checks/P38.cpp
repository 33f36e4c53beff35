// P38 Password file: exactly the listed credentials are accepted.
#include "mqtt.h"
#include "model.h"
#include <cstring>
#include <openssl/evp.h>
using namespace mc;
using namespace mq;
using namespace std::string_literals;
static std::string b64(const std::string &s) { std::string o(4 * ((s.size() + 2) / 3) + 1, 0); int n = EVP_EncodeBlock((unsigned char *)o.data(), (const unsigned char *)s.data(), s.size()); o.resize(n); return o; }
static std::string hash6(const std::string &pw, const std::string &salt) { unsigned char md[64]; unsigned n = 0; std::string x = pw + salt; EVP_Digest(x.data(), x.size(), md, &n, EVP_sha512(), nullptr); return std::string((char *)md, n); }
static std::string hash7(const std::string &pw, const std::string &salt, int it) { unsigned char md[64]; PKCS5_PBKDF2_HMAC(pw.data(), pw.size(), (const unsigned char *)salt.data(), salt.size(), it, EVP_sha512(), 64, md); return std::string((char *)md, 64); }
static std::string entry(const std::string &user, const std::string &pw, int kind)
{
    std::string salt = kind & 1 ? "saltsaltsalt"s : "\x01\xff""0123456789\x00z"s; if (kind < 2) return user + ":$6$" + b64(salt) + "$" + b64(hash6(pw, salt)); int it = kind == 2 ? 101 : kind == 3 ? 1 : 7; return user + ":$7$" + std::to_string(it) + "$" + b64(salt) + "$" + b64(hash7(pw, salt, it));
}
using Table = std::map<std::string, std::string>;
static bool login(int ver, std::optional<std::string> user, std::optional<std::string> pw, bool want, const char *when)
{
    if (ver < 5 && pw && !user) return true; // can't be expressed
    Cl c("C", ver); c.o.user = user; c.o.pass = pw; bool ok = c.connect();
    REQUIRE(ok == want, want ? "refused" : "accepted", "%s: user %s password %s: %s", when, user ? str(*user).c_str() + 2 : "(none)", pw ? hex(*pw, 20).c_str() : "(none)", ok ? "accepted" : "refused");
    if (ok) { REQUIRE(c.ping(), "ping", "no"); c.disconnect(); settle(); }
    else { settle(); REQUIRE(c.closed(), "open", "%s: refused but not closed", when); int rc = c.connack.rc; REQUIRE(ver == 5 ? rc == 0x86 || rc == 0x87 : rc == 4 || rc == 5, "code", "%s: return code %d", when, rc); }
    count(ok ? "accepted" : "refused"); return ok;
}
static const std::string USERS[] = {"alice", "alic", "alicee", "Alice", "bob", "al ice", "\xc3\xbc", "$6$x", "alice/b", "al"};
static const std::string PWS[] = {"secret", "secre", "secrett", "", "Secret", "pass word", "p\0q"s, "p", std::string(200, 'x'), "\xff\xfe\x01"s, ":$", "secret\n"};
// all pairs
static void all(const Table &t, int ver, bool anon, const char *when)
{
    auto test = [&](std::optional<std::string> u, std::optional<std::string> p) {
        bool want; if (!u) want = anon; else { auto i = t.find(*u); want = i == t.end() ? anon : i->second == p.value_or(""); } if (u && u->empty()) want = false;
        login(ver, u, p, want, when);
    };
    for (auto &u : USERS) { for (auto &p : PWS) test(u, p); test(u, std::nullopt); } for (auto &p : PWS) { test(std::nullopt, p); test("", p); } test(std::nullopt, std::nullopt);
    test("alice:", "secret"); test(" alice", "secret"); login(ver, "alice+", "secret", false, when); login(ver, "#", "secret", false, when);
}
static std::string conf(bool anon) { return "mosquitto_password_file /mcfs/pw\n" + std::string(anon ? "" : "allow_anonymous false\n"); }
CHECK(P38, "")
{
    Server s; bool anon = choose(2, "anonymous allowed"); std::string base = "allow_anonymous " + std::string(anon ? "true" : "false") + "\nthread_count 2\nmosquitto_password_file /mcfs/pw\nlisten {\n  protocol mqtt\n  inet_protocol ip4\n  port 1883\n}\n"; int ver = choose(3, "version") + 3; auto start = [&] { return s.start(base, false); };
    switch (choose(4, "part")) {
    case 0: { // one user of each kind; all names and passwords
        int kind = choose(5, "hash"); size_t pi = choose(12, "password"), ui = choose(10, "user"); Table t = {{USERS[ui], PWS[pi]}}; note("hash %d, %s with password %zu", kind, USERS[ui].c_str(), pi); if (!thorough() && ui && pi && ui != pi) prune();
        sim::fs::put("/mcfs/pw", entry(USERS[ui], PWS[pi], kind) + (choose(2, "newline") ? "\n" : "")); REQUIRE(start(), "boot", "no"); all(t, ver, anon, "single"); break;
    }
    case 1: { // several users
        Table t; std::string f; int n = 1 + choose(4, "users"); int rot = choose(thorough() ? 10 : 4, "rotation"); for (int i = 0; i < n; i++) { auto &u = USERS[(i * 3 + rot) % 10]; auto &p = PWS[(i + rot) % 12]; t[u] = p; f += entry(u, p, (i + rot) % 5) + (rot & 1 ? "\r\n" : "\n"); if (rot & 2) f += "\n"; } sim::fs::put("/mcfs/pw", f); REQUIRE(start(), "boot", "no"); all(t, ver, anon, "several"); break;
    }
    case 2: { // malformed lines grant nothing and leave the others as they are
        std::string ok = entry("bob", "p", 0), ok7; std::string h6 = b64(hash6("secret", "saltsaltsalt")), h7 = b64(hash7("secret", "saltsaltsalt", 101)), sl = b64("saltsaltsalt"s); ok7 = "al:$7$101$" + sl + "$" + h7;
        const std::string BAD[] = {"alice", "alice:", "alice:secret", "alice:$6$" + sl, "alice:$6$" + sl + "$", "alice:$6$$" + h6, "alice:$7$" + sl + "$" + h7, "alice:$7$x$" + sl + "$" + h7, "alice:$7$$" + sl + "$" + h7, "alice:$5$" + sl + "$" + h6, "alice:$6$" + sl + "$" + h6.substr(0, 84), "alice:$6$" + sl + "$" + h6.substr(0, 80), "alice:$6$" + sl + "$" + h6.substr(0, 4), "alice:$6$" + sl + "$====", "alice:$6$" + sl + "$!!!!", ":$6$" + sl + "$" + h6, "alice:$6$" + sl + "$" + h6 + ":x", "alice:$7$101$" + sl + "$" + h7.substr(0, 44), "alice:$7$0$" + sl + "$" + h7, "alice:$7$-3$" + sl + "$" + h7, "alice:$7$99999999999$" + sl + "$" + h7, "#alice:$6$" + sl + "$" + h6, "alice:6$" + sl, "$6$" + sl + "$" + h6, "alice:$6$" + sl + "$" + b64(hash6("secret", "saltsaltsalt") + "x"), ":", "::", "alice:$", "alice:$$", "alice:$$$", "alice:$6", "alice:$7$101$" + sl, "alice :$6$x$" + h6};
        int b = choose(33, "line"), where = choose(3, "where"); std::string f = where == 0 ? BAD[b] + "\n" + ok + "\n" + ok7 + "\n" : where == 1 ? ok + "\n" + BAD[b] + "\n" + ok7 + "\n" : ok + "\n" + ok7 + "\n" + BAD[b]; note("%s", BAD[b].c_str()); sim::fs::put("/mcfs/pw", f); REQUIRE(start(), "boot", "no");
        if (anon) { for (auto &p : PWS) { Cl c("C", ver); c.o.user = "bob"; c.o.pass = p; bool want = p == "p"; REQUIRE(c.connect() == want, "others", "bob with %s", hex(p).c_str()); if (want) { c.disconnect(); settle(); } } return; } 
        for (auto p : {"secret", "x"}) { login(ver, "al", "secret", true, BAD[b].c_str()); login(ver, "alice", p, false, BAD[b].c_str()); } all({{"bob", "p"}, {"al", "secret"}}, ver, anon, BAD[b].c_str()); break;
    }
    case 3: { // the file changes
        Table t1 = {{"alice", "secret"}, {"bob", "p"}}; std::string f1 = entry("alice", "secret", 2) + "\n" + entry("bob", "p", 0) + "\n"; Table t2; std::string f2; switch (choose(5, "change")) {
            case 0: t2 = {{"alice", "secret"}}; f2 = entry("alice", "secret", 2) + "\n"; break; case 1: t2 = {{"alice", "Secret"}, {"bob", "p"}}; f2 = entry("alice", "Secret", 2) + "\n" + entry("bob", "p", 0); break; case 2: t2 = {{"alice", "secret"}, {"bob", "p"}, {"al", ""}}; f2 = f1 + entry("al", "", 1); break; case 3: t2 = {}; f2 = ""; break; case 4: t2 = {{"bob", "secret"}}; f2 = "alice:xx\n" + entry("bob", "secret", 1); break; }
        bool remove = choose(2, "then removed"); sim::fs::put("/mcfs/pw", f1); REQUIRE(start(), "boot", "no"); if (choose(2, "used before")) all(t1, ver, anon, "before"); Cl c("K", ver); c.o.user = "alice"; c.o.pass = "secret"; REQUIRE(c.connect(), "refused", "before the change"); static const int D[] = {50, 900, 2500, 7000}; advance(D[choose(4, "after")], 50); 
        sim::fs::put("/mcfs/pw", f2); advance(4500, 500); if (remove) { sim::fs::remove("/mcfs/pw"); advance(4500, 500); } all(t2, ver, anon, "after the change"); REQUIRE(!c.closed() && c.ping(), "dropped", "connected client was dropped"); if (choose(2, "back")) { if (remove) prune(); sim::fs::put("/mcfs/pw", f1); advance(4500, 500); all(t1, ver, anon, "changed back"); } break;
    }
    }
}
