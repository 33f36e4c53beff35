// P14 A crash or write fault never destroys the last good saved state.
#include "mqtt.h"
#include "model.h"
#include <cstring>
#include <errno.h>
using namespace mc;
using namespace mq;
static const char *CONF = "storage_dir /mcfs/store\nsave_state_interval 300\n";
// the state: generation 1 or 2 of retained messages, sessions with messages and subscriptions
static std::string pay(int gen, int i, int big) { return "g" + std::to_string(gen) + "-" + std::to_string(i) + std::string(big, char('a' + gen)); }
struct World {
    Server srv; Cl a, p; int nret, big; 
    void reset() { a = Cl("A", 5); p = Cl("P", 4); }
    void set(int gen)
    {
        Cl q("Q" + std::to_string(gen), 4); REQUIRE(q.connect(), "connect", "Q");
        for (int i = 0; i < nret; i++) REQUIRE(q.publish("r/" + std::to_string(i), pay(gen, i, big), 1, true), "publish", "no");
        if (gen == 2) REQUIRE(q.publish("r/new", "x", 1, true) && (nret < 1 || q.publish("r/0", "", 1, true)), "publish", "no");
        Cl s("S", 5); s.o.clean = false; s.o.props = {pn(P_SESSEXP, 90000)}; REQUIRE(s.connect(), "connect", "S"); s.publishes(); if (gen == 1) REQUIRE(s.subscribe({{"s/1", 1}, {"s/+/x", 2}}), "suback", "no"); else REQUIRE(s.unsubscribe({"s/1"}) && s.subscribe({{"s/2", 1}, {"s/+/x", 2}}), "suback", "no");
        s.close(); settle(); for (int i = 0; i < 3; i++) REQUIRE(q.publish(gen == 1 ? "s/1" : "s/2", pay(gen, 100 + i, big), 1), "publish", "no");
        q.disconnect(); settle();
    }
    // which generation is this? 0: neither
    int ret_gen(std::string &what)
    {
        Cl f("F" + std::to_string(sim::now_ns()), 4); REQUIRE(f.connect() && f.subscribe({{"r/#", 1}}), "connect", "F"); advance(60); std::map<std::string, std::string> got; for (auto &k : f.publishes()) got[k.topic] = k.payload; f.disconnect(); settle();
        for (int gen = 0; gen <= 2; gen++) { std::map<std::string, std::string> w; if (gen) for (int i = 0; i < nret; i++) w["r/" + std::to_string(i)] = pay(gen, i, big); if (gen == 2) { w["r/new"] = "x"; w.erase("r/0"); } if (w == got) return gen; }
        what = std::to_string(got.size()) + " retained messages:"; for (auto &x : got) what += " " + x.first + "=" + x.second.substr(0, 8); return -1;
    }
    int ses_gen(std::string &what)
    {
        Cl s("S", 5); s.o.clean = false; s.o.props = {pn(P_SESSEXP, 90000)}; REQUIRE(s.connect(), "connect", "S"); std::vector<std::string> got; for (auto &k : s.publishes()) got.push_back(k.payload);
        Cl q("Q9", 4); REQUIRE(q.connect(), "connect", "Q9"); std::string subs; for (const char *t : {"s/1", "s/2", "s/y/x"}) { q.publish(t, "probe", 1); for (auto &k : s.publishes()) subs += k.topic + " "; } s.close(); q.disconnect(); settle();
        for (int gen = 0; gen <= 2; gen++) { std::vector<std::string> w; if (gen) for (int i = 0; i < 3; i++) w.push_back(pay(gen, 100 + i, big)); std::string ws = gen == 0 ? "" : gen == 1 ? "s/1 s/y/x " : "s/2 s/y/x "; if (s.connack.sp == (gen > 0) && got == w && subs == ws) return gen; }
        what = std::to_string(got.size()) + " messages, subscriptions: " + subs + (s.connack.sp ? "" : ", no session"); return -1;
    }
};
static int action; static std::string opname; // action -1: not yet
static int hook(const sim::fs::Op &o)
{
    if (o.path.compare(0, 12, "/mcfs/store/") && o.path != "/mcfs/store") return 0;
    if (action == 5) return o.kind == "read" ? 0 : ENOSPC;
    if (action >= 0) return 0;
    bool w = o.kind == "write", rd = o.kind == "read"; int k = rd ? choose(2, "fault") * 3 : choose(w ? 7 : 6, "fault"); if (!k) return 0;
    action = k == 6 ? 4 : k == 5 ? 5 : k - 1; opname = o.kind + " " + o.path.substr(0, o.path.find(".newfile")) + " " + std::to_string(o.off) + "+" + std::to_string(o.len);
    switch (action) { case 0: return -1; case 1: return -2; case 2: return EIO; case 3: case 5: return ENOSPC; case 4: return -1000 - (int)(o.len / 2); } return 0;
}
static const char *anames[] = {"crash before", "crash after", "I/O error", "no space once", "short write, no space", "no space from here on"};
CHECK(P14, "")
{
    static const int NR[] = {0, 1, 3, 40}; static const int BIG[] = {0, 900, 6000}; World w; w.nret = NR[choose(4, "retained")]; w.big = BIG[choose(3, "size")]; bool first = choose(2, "nothing saved before"), periodic = choose(2, "periodic"); 
    if (!thorough() && !((w.nret == 0 && !w.big) || (w.nret == 1 && !w.big) || (w.nret == 3 && w.big == 6000) || (w.nret == 1 && w.big == 900 && !first))) prune();
    int gen1 = first ? 0 : 1;
    w.reset(); REQUIRE(w.srv.start(CONF), "boot", "no start");
    if (!first) { w.set(1); REQUIRE(w.srv.stop(), "stop", "no exit"); REQUIRE(w.srv.start(CONF), "boot", "no restart"); } 
    sim::fs::sync_all(); w.set(2);
    note("%d retained, %d bytes, %s, %s", w.nret, w.big, first ? "first save" : "second save", periodic ? "periodic" : "at shutdown");
    action = -1; opname.clear(); sim::fs::set_hook(hook); bool stopped = false;
    if (periodic) advance(301000, 7000); else { stopped = w.srv.stop(); }
    sim::fs::set_hook(nullptr);
    if (opname.empty()) prune(); // no fault
    bool crash = action < 2;
    note("%s %s", anames[action], opname.c_str()); count(anames[action]);
    if (sim::crashed() && !crash) fail("died", "the server died from a write error");
    if (!crash) {
        if (!periodic) { if (!stopped) REQUIRE(!sim::crashed(), "died", "no clean exit after a write error"); }
        else { // it goes on serving, and the next save is complete
            Cl c("C", 4); REQUIRE(c.connect() && c.publish("x", "y", 1), "serving", "the server doesn't serve after a failed save"); c.disconnect(); settle();
            if (choose(2, "another save")) { advance(302000, 7000); w.srv.crash(); REQUIRE(w.srv.start(CONF), "boot", "no restart"); std::string what; int r = w.ret_gen(what), s = w.ses_gen(what); REQUIRE((r == 2 || (r == 0 && w.nret == 0)) && s == 2, "next-save", "after a failed and a good save: retained %d, sessions %d %s", r, s, what.c_str()); return; }
        }
    }
    if (crash) sim::clear_crashed();
    // power loss: any part of what wasn't synced is lost
    if (w.srv.running() || crash) w.srv.crash();
    if (crash || choose(2, "power loss")) {
        int mode = crash ? choose(2, "power loss") : 1;
        if (mode) {
            auto p = sim::fs::pending(); size_t dir = choose(p.ndirops + 1, "directory operations kept"); std::vector<size_t> keep; int k = choose(4, "writes kept"); bool torn = false; for (auto n : p.npending) keep.push_back(k == 0 ? 0 : k == 1 ? n / 2 : n); if (k == 3) torn = true;
            sim::fs::crash_apply(keep, torn, dir); note("power loss: %zu of %zu directory operations, writes %d", dir, p.ndirops, k); count("power loss");
        }
    }
    w.reset(); REQUIRE(w.srv.start(CONF), "boot", "no start after the fault");
    for (auto &f : sim::fs::list("/mcfs/store/")) REQUIRE(f.find(".corrupt.") == std::string::npos, "corrupt", "%s was found corrupt after a failed save", f.c_str());
    std::string what; int r = w.ret_gen(what); REQUIRE(r == 2 || r == gen1 || (r == 0 && w.nret == 0), "retained", "neither the old nor the new state: %s", what.c_str());
    int s = w.ses_gen(what); REQUIRE(s == 2 || s == gen1, "sessions", "neither the old nor the new state: %s", what.c_str());
    if (!crash && !periodic) (void)stopped;
    count(("retained " + std::to_string(r) + " sessions " + std::to_string(s)).c_str());
}
