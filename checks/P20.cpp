// P20 Topic aliases never change which topic a message has.
#include "mqtt.h"
#include "model.h"
using namespace mc;
using namespace mq;
CHECK(P20, "")
{
    static const int maxin[] = {0, 1, 2}, maxout[] = {65535, 1};
    int part = choose(2, "direction");
    if (part == 0) { // client to server
        int amax = maxin[choose(3, "max in")];
        Server srv; REQUIRE(srv.start("max_incoming_topic_alias_value " + std::to_string(amax) + "\n"), "boot", "no start");
        Cl p("P", 5), s("S", 5), s3("S3", 4); REQUIRE(s.connect() && s3.connect() && s.subscribe({{"#", 2}}) && s3.subscribe({{"#", 2}}), "connect", "S");
        Cl z("Z", 5); REQUIRE(z.connect(), "connect", "Z"); int zn = 0;
        std::map<int, std::string> map, zmap;
        auto up = [&] { p.rx.clear(); p.rbuf.clear(); REQUIRE(p.connect(), "connect", "P"); map.clear(); auto a = find(p.connack.props, P_ALIASMAX); REQUIRE((a ? (int)a->num : 0) == amax, "announce", "announced alias maximum %d", a ? (int)a->num : 0); };
        up(); int n = 0;
        note("maximum %d", amax);
        int depth = param("depth", thorough() ? 3 + amax + 1 : 2 + amax);
        for (int d = 0; d < depth; d++) {
            int k = choose(14, "operation"); int q = n % 3;
            int alias = -1; std::string topic;
            Cl *c = &p; auto *mp = &map;
            switch (k) {
            case 0: alias = 1; topic = "t/a"; break;
            case 1: alias = 1; topic = "t/b"; break;
            case 2: alias = 2; topic = "t/a"; break;
            case 3: alias = 2; topic = "u"; break;
            case 4: alias = 1; break;
            case 5: alias = 2; break;
            case 6: alias = 3; topic = "t/a"; break;
            case 7: alias = 3; break;
            case 8: alias = 0; topic = "t/a"; break;
            case 9: break;                       // neither topic nor alias
            case 10: topic = "t/b"; break;       // without alias
            case 11: note("P reconnects"); p.close(choose(2, "how")); settle(); up(); continue;
            case 12: alias = 1; topic = "z"; c = &z; mp = &zmap; break; // another client has its own
            case 13: alias = 1; c = &z; mp = &zmap; if (zmap.empty()) prune(); break;
            }
            bool ok = alias < 0 ? !topic.empty() : alias >= 1 && alias <= amax && (!topic.empty() || mp->count(alias));
            if (ok && alias > 0 && !topic.empty()) (*mp)[alias] = topic;
            std::string want = !topic.empty() ? topic : ok ? (*mp)[alias] : "";
            std::string pl = "m" + std::to_string(n++); Props pr; if (alias >= 0) pr.push_back(pn(P_ALIAS, alias));
            note("%s publishes %s topic '%s' alias %d q%d%s", c->name.c_str(), pl.c_str(), topic.c_str(), alias, q, ok ? "" : " (wrong)");
            if (ok) REQUIRE(c->publish(topic, pl, q, false, pr), "refused", "a permitted publish was refused");
            else {
                c->raw(mq::publish(5, topic, pl, q, q ? 9 : 0, false, false, pr)); settle();
                c->pump(); for (auto &x : c->rx) if (x.type == DISCONNECT) REQUIRE(x.rc >= 0x80, "reason", "DISCONNECT with %d", x.rc);
                REQUIRE(c->closed(), "accepted", "topic '%s' with alias %d was accepted with maximum %d", topic.c_str(), alias, amax);
            }
            for (Cl *r : {&s, &s3}) {
                auto v = r->publishes();
                if (!ok) REQUIRE(v.empty(), "routed", "a wrong publish was delivered as %s", v[0].txt().c_str());
                else { REQUIRE(v.size() == 1 && v[0].payload == pl, "lost", "%zu messages", v.size()); REQUIRE(v[0].topic == want, "topic", "message for topic %s was delivered as %s", want.c_str(), v[0].topic.c_str()); REQUIRE(!find(v[0].props, P_ALIAS), "alias", "alias towards a client that did not ask for it"); }
            }
            if (!ok) { if (c == &z) { if (zn++) prune(); z.rx.clear(); z.rbuf.clear(); REQUIRE(z.connect(), "connect", "Z"); zmap.clear(); } else up(); }
        }
        return;
    }
    int smax = maxout[choose(2, "max out")], cmax = choose(4, "client max"); bool small = choose(2, "packet limit");
    Server srv; REQUIRE(srv.start("max_outgoing_topic_alias_value " + std::to_string(smax) + "\n"), "boot", "no start");
    Cl p("P", 5), s("S", 5), s3("S3", 4), o("O", 5); int limit = std::min(smax, cmax);
    REQUIRE(p.connect() && s3.connect() && o.connect(), "connect", "P"); REQUIRE(s3.subscribe({{"t/#", 2}}) && o.subscribe({{"t/#", 2}}), "suback", "no");
    bool online = false; std::vector<std::pair<std::string, std::string>> queued; std::map<std::string, std::string> retained;
    auto up = [&](bool first) {
        s.o.clean = false; s.o.props = {pn(P_SESSEXP, 5000)}; if (cmax) s.o.props.push_back(pn(P_ALIASMAX, cmax)); if (small) s.o.props.push_back(pn(P_MAXPKT, 60));
        s.rx.clear(); s.rbuf.clear(); s.aliases.clear(); REQUIRE(s.connect(), "connect", "S"); online = true;
        if (first) REQUIRE(s.subscribe({{"t/#", 2}}), "suback", "no"); };
    up(true);
    auto judge = [&](Cl &c, std::vector<std::pair<std::string, std::string>> want) {
        c.resolve_alias = true;
        auto v = c.publishes(); std::vector<std::pair<std::string, std::string>> got; for (auto &m : v) got.push_back({m.topic, m.payload});
        std::string l; for (auto &g : got) l += g.first + "=" + g.second.substr(0, 12) + " ";
        REQUIRE(got == want, "topic", "%s: client %s understood %s", c.name.c_str(), c.name.c_str(), l.c_str());
        for (auto &a : c.aliases) REQUIRE(a.first >= 1 && a.first <= limit && &c == &s, "alias-limit", "alias %d towards a client that allows %d", a.first, limit);
        count("judged", v.size()); };
    int n = 0; note("aliases: server at most %d, client %d%s", smax, cmax, small ? ", packets up to 60 bytes" : "");
    int depth = param("depth", thorough() ? 6 : small || smax == 1 ? 4 : 3);
    for (int d = 0; d < depth; d++) {
        int k = choose(8, "operation");
        static const char *T[] = {"t/a", "t/b", "t/c", "t/d"};
        if (k < 4 || k == 4) {
            const char *t = T[k % 4]; int q = n % 3; std::string pl = "m" + std::to_string(n++); bool big = k == 4 && small; if (big) pl.resize(100, '.');
            note("publish %s on %s q%d%s", pl.substr(0, 5).c_str(), t, q, big ? " big" : "");
            REQUIRE(p.publish(t, pl, q), "publish", "no");
            judge(s3, {{t, pl}}); judge(o, {{t, pl}});
            if (online) judge(s, big ? std::vector<std::pair<std::string, std::string>>() : std::vector<std::pair<std::string, std::string>>{{t, pl}});
            else if (q && !big) queued.push_back({t, pl});
        } else if (k == 5) {
            if (online) { note("S leaves"); s.close(); settle(); online = false; } else { note("S returns"); up(false); judge(s, queued); queued.clear(); }
        } else if (k == 6) { if (!online) prune(); note("S takes over"); up(false); judge(s, queued); }
        else { std::string t = T[n % 4], pl = "m" + std::to_string(n++); note("retained %s", t.c_str()); REQUIRE(p.publish(t, pl, 1, true), "publish", "no"); judge(s3, {{t, pl}}); judge(o, {{t, pl}}); if (online) judge(s, {{t, pl}}); else queued.push_back({t, pl}); retained[t] = pl;
            if (online) { REQUIRE(s.subscribe({{t, 2}}), "suback", "no"); judge(s, {{t, pl}}); REQUIRE(s.unsubscribe({t}), "unsuback", "no"); } }
    }
    if (!online) { up(false); judge(s, queued); }
}
