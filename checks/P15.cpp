// P15 A damaged saved file is detected, never half loaded.
#include "mqtt.h"
#include "model.h"
#include <cstring>
using namespace mc;
using namespace mq;
static const char *CONF = "storage_dir /mcfs/store\n";
static int kind; static std::vector<std::string> store() { std::vector<std::string> r; for (auto &f : sim::fs::list("/mcfs/store/")) if (f.size() > 12) r.push_back(f.substr(12)); return r; }
static void fill()
{
    Cl q("Q", 5); REQUIRE(q.connect(), "connect", "Q");
    if (kind >= 1) { REQUIRE(q.publish("r/1", "one", 1, true), "publish", "no"); Cl s("S", 5); s.o.clean = false; s.o.props = {pn(P_SESSEXP, 90000)}; REQUIRE(s.connect() && s.subscribe({{"s/1", 1}}), "suback", "no"); s.close(); settle(); REQUIRE(q.publish("s/1", "m1", 1), "publish", "no"); }
    if (kind >= 2) {
        REQUIRE(q.publish("r/2/x", "two", 2, true), "publish", "no"); Cl s("T", 5); s.o.clean = false; s.o.props = {pn(P_SESSEXP, 90000)}; s.o.will = Will{"w/t", "bye", 1, false, {pn(P_WILLDELAY, 40000)}};
        REQUIRE(s.connect() && s.subscribe({{"s/#", 2}, {"$share/g/u", 1}}), "suback", "no"); s.close(); settle(); for (int i = 0; i < 2; i++) REQUIRE(q.publish("s/1", "m" + std::to_string(i + 2), 2), "publish", "no");
    }
    q.disconnect(); settle();
}
// what is there, as text; without effect on the state, as far as the next run is concerned
static std::string sessions()
{
    std::string r[2]; Cl c[2] = {Cl("S", 5), Cl("T", 5)}, q("Q9", 4);
    for (int i = 0; i < 2; i++) { Cl &s = c[i]; s.o.clean = false; s.o.props = {pn(P_SESSEXP, 90000)}; REQUIRE(s.connect(), "connect", "%d", i); r[i] = s.connack.sp ? std::string(i ? "T" : "S") + "[" : ""; for (auto &k : s.publishes()) r[i] += k.topic + "=" + k.payload + " "; }
    REQUIRE(q.connect(), "connect", "Q9"); for (const char *t : {"s/1", "s/x", "u"}) { q.publish(t, "probe", 1); for (int i = 0; i < 2; i++) for (auto &k : c[i].publishes()) r[i] += ">" + k.topic; }
    q.disconnect(); for (int i = 0; i < 2; i++) { c[i].disconnect(); if (c[i].connack.sp) r[i] += "]"; } settle();
    return r[0] + r[1];
}
static std::string retained()
{
    std::map<std::string, std::string> got; Cl f("F", 4); REQUIRE(f.connect() && f.subscribe({{"#", 1}}), "connect", "F"); advance(60); for (auto &k : f.publishes()) got[k.topic] = k.payload; f.disconnect(); settle();
    std::string r; for (auto &x : got) r += x.first + "=" + x.second + " "; return r;
}
CHECK(P15, "")
{
    Server s; kind = choose(3, "contents"); s.start(CONF); fill(); REQUIRE(s.stop(), "stop", "no exit");
    std::map<std::string, std::string> files; for (auto &f : store()) { std::string d; if (sim::fs::get("/mcfs/store/" + f, d)) files[f] = d; }
    REQUIRE(files.count("retained.db") && files.count("sessions.db"), "files", "no state saved");
    std::string wr, ws; if (kind >= 1) wr = kind >= 2 ? "r/1=one r/2/x=two " : "r/1=one "; 
    if (kind == 1) ws = "S[s/1=m1 >s/1]"; if (kind == 2) ws = "S[s/1=m1 s/1=m2 s/1=m3 >s/1]T[s/1=m2 s/1=m3 >s/1>s/x>u]";
    std::vector<std::string> names; for (auto &x : files) names.push_back(x.first);
    std::string name = names[choose(names.size(), "file")], path = "/mcfs/store/" + name; const std::string &old = files[name]; if (kind && name != "retained.db" && name != "sessions.db" && !thorough()) prune(); std::string d = old; std::string what; bool gone = false;
    switch (choose(5, "damage")) {
    case 0: { size_t n = choose(old.size(), "truncated to"); d.resize(n); what = "truncated to " + std::to_string(n) + " of " + std::to_string(old.size()); break; }
    case 1: {
        size_t n = choose(old.size(), "byte"); bool full = n <= old.find('\0'); unsigned char o = old[n], v; 
        if (full || thorough()) { int k = choose(255, "value"); v = k >= o ? k + 1 : k; } else { static const int X[] = {1, 0x80, 0xff, 0x10}; v = o ^ X[choose(4, "flip")]; }
        d[n] = v; what = "byte " + std::to_string(n) + " from " + std::to_string(o) + " to " + std::to_string(v); break;
    }
    case 2: { static const size_t N[] = {1, 4, 512, 5000}; size_t n = N[choose(4, "appended")]; d += std::string(n, choose(2, "with") ? '\0' : 'x'); what = std::to_string(n) + " bytes appended"; break; }
    case 3: { static const int B[] = {8, 32, 64, 96, 128}; int b = B[choose(5, "block")]; size_t nb = old.size() / b; if (!nb) prune(); size_t i = choose(nb, "which"); bool z = choose(2, "zeroed"); if (z) std::fill(d.begin() + i * b, d.begin() + (i + 1) * b, '\0'); else d.erase(i * b, b); what = "block " + std::to_string(i) + " of " + std::to_string(b) + (z ? " zeroed" : " missing"); break; }
    case 4: gone = true; what = "file gone"; break;
    }
    if (!gone && d == old) prune();
    note("contents %d: %s: %s", kind, name.c_str(), what.c_str()); count(gone ? "absent" : "damaged");
    if (gone) sim::fs::remove(path); else sim::fs::put(path, d); sim::fs::sync_all();
    bool is_ret = name == "retained.db", is_ses = name == "sessions.db"; bool hashed = !gone && d.size() >= 96 && d.substr(0, 32) == old.substr(0, 32);
    Server t; bool up = t.start(CONF); if (sim::crashed()) fail("crash", "the server crashed on a damaged file");
    auto check = [&](bool loaded, const char *when) {
        std::string gr = retained(), gs = sessions(); 
        REQUIRE(gr == (is_ret && !loaded ? "" : wr), "retained", "%s: retained messages: %s", when, gr.c_str()); REQUIRE(gs == (is_ses && !loaded ? "" : ws), "sessions", "%s: sessions: %s", when, gs.c_str());
    };
    if (gone) { REQUIRE(up, "boot", "no start without %s", name.c_str()); check(false, "file absent"); count("clean start"); return; }
    if (up) {
        // Only harmless alterations: behind the end of the version string in the header
        REQUIRE(!hashed, "undetected", "the server started with the damaged file");
        size_t e = old.find('\0'); auto digit = [](char c) { return c >= '1' && c <= '9'; };
        if (d.size() == old.size() && d.substr(0, e - 1) == old.substr(0, e - 1) && digit(d[e - 1]) && d.substr(e) == old.substr(e)) { settle(); if (sim::crashed()) fail("crash", "crashed"); count("other version"); return; } // reads as a file of another version
 REQUIRE(d.size() == old.size() && d.substr(0, e + 1) == old.substr(0, e + 1) && d.substr(32) == old.substr(32), "undetected", "the server started with the damaged file");
        check(true, "harmless alteration"); count("harmless"); return;
    }
    REQUIRE(!t.running(), "hang", "the server neither listens nor exits");
    // the damaged data is still there
    std::string now; bool kept = false, aside = false; for (auto &f : store()) { std::string x; if (!sim::fs::get("/mcfs/store/" + f, x) || x != d) continue; if (f == name) kept = true; else if (f.compare(0, name.size() + 9, name + ".corrupt.") == 0) aside = true; }
    REQUIRE(kept || aside, "data-gone", "the damaged file is not kept");
    for (auto &x : files) if (x.first != name) { std::string g; REQUIRE(sim::fs::get("/mcfs/store/" + x.first, g) && g == x.second, "other-file", "%s changed", x.first.c_str()); }
    count("refused");
    if (hashed) REQUIRE(aside && !kept, "not-aside", "the damaged file was not moved aside");
    if (aside) { Server u; REQUIRE(u.start(CONF), "boot-next", "no start after the damaged file was moved aside"); check(false, "after moving aside"); count("next start"); }
}
