// Independent MQTT 3.1 / 3.1.1 / 5.0 codec and client driver.
#pragma once
#include "sim.h"
#include "explore.h"
#include <deque>
#include <optional>
#include <string>
#include <vector>

namespace mq {
enum { CONNECT = 1, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, PINGREQ, PINGRESP, DISCONNECT, AUTH };
enum { P_PFI = 1, P_EXPIRY = 2, P_CTYPE = 3, P_RESPTOPIC = 8, P_CORR = 9, P_SUBID = 11, P_SESSEXP = 17, P_ASSIGNED = 18, P_SRVKEEP = 19, P_AUTHMETHOD = 21,
       P_AUTHDATA = 22, P_REQPROB = 23, P_WILLDELAY = 24, P_REQRESP = 25, P_RESPINFO = 26, P_SRVREF = 28, P_REASON = 31, P_RECVMAX = 33, P_ALIASMAX = 34,
       P_ALIAS = 35, P_MAXQOS = 36, P_RETAINAVAIL = 37, P_USER = 38, P_MAXPKT = 39, P_WILDAVAIL = 40, P_SUBIDAVAIL = 41, P_SHAREDAVAIL = 42 };
struct Prop { int id; uint32_t num = 0; std::string s, s2; };
using Props = std::vector<Prop>;
inline Prop pn(int id, uint32_t v) { return {id, v, "", ""}; }
inline Prop ps(int id, const std::string &v) { return {id, 0, v, ""}; }
inline Prop pu(const std::string &k, const std::string &v) { return {P_USER, 0, k, v}; }
const Prop *find(const Props &p, int id);
std::string props(const Props &p);
std::string str(const std::string &s);
std::string u16(unsigned v);
std::string varint(uint32_t v);
std::string packet(int type, int flags, const std::string &body);

struct Will { std::string topic, payload; int qos = 0; bool retain = false; Props props; };
struct ConnectOpts {
    int ver = 4; std::string id; bool clean = true; int keepalive = 0; Props props; std::optional<Will> will; std::optional<std::string> user, pass;
};
std::string connect(const ConnectOpts &o);
std::string publish(int ver, const std::string &topic, const std::string &payload, int qos, unsigned id = 0, bool retain = false, bool dup = false, const Props &p = {});
std::string ack(int ver, int type, unsigned id, int rc = -1, const Props &p = {});
struct Filter { std::string f; int qos = 0; bool nl = false, rap = false; int rh = 0; int raw = -1; };
std::string subscribe(int ver, unsigned id, const std::vector<Filter> &f, const Props &p = {});
std::string unsubscribe(int ver, unsigned id, const std::vector<std::string> &f, const Props &p = {});
std::string pingreq();
std::string disconnect(int ver, int rc = -1, const Props &p = {});
std::string auth(int rc, const Props &p);
std::string suback(int ver, unsigned id, const std::vector<int> &codes);
std::string connack(int ver, bool sp, int rc, const Props &p = {});

struct Pkt {
    int type = 0, flags = 0;
    bool dup = false, retain = false; int qos = 0;
    std::string topic, payload; unsigned id = 0;
    int rc = -1; bool sp = false;
    std::vector<int> codes;
    Props props;
    size_t size = 0;
    // CONNECT / SUBSCRIBE / UNSUBSCRIBE (when playing a remote broker)
    ConnectOpts co; std::vector<Filter> filters; int proto = 0; int conflags = 0;
    std::string txt() const;
};
// Decodes one packet from the front. 1: ok, 0: incomplete, -1: malformed (err says why). server_side: packets a client sends.
int decode(std::string &buf, int ver, Pkt &out, std::string &err, bool server_side = false);
const char *tname(int t);
}

namespace mc {
struct Cl {
    std::string name;            // for histories
    mq::ConnectOpts o;
    sim::ConnP c;
    std::string rbuf;
    std::deque<mq::Pkt> rx;      // received and not consumed
    std::map<int, std::string> aliases; // server -> client
    bool resolve_alias = true;
    bool closed_seen = false;
    unsigned next_id = 1;
    int port = 1883;
    std::string decode_error;

    Cl() = default;
    Cl(const std::string &id, int ver = 4) : name(id) { o.id = id; o.ver = ver; if (ver >= 5) o.keepalive = 60000; } // MQTT 5: 0 would be raised to a server keep alive of 5 s
    bool open(const char *ip = nullptr);                 // TCP connect only
    void raw(const std::string &bytes) { op(); sim::feed(c, bytes); }
    bool connect();                                      // open + CONNECT + settle; true when accepted (CONNACK rc 0 is popped into connack)
    mq::Pkt connack;
    void send_connect();                                 // open + CONNECT, no settle
    void pump();                                         // decode everything written by the server so far into rx
    bool closed();                                       // server closed the connection
    void close(bool rst = false);                        // abrupt
    void disconnect(int rc = -1, const mq::Props &p = {}); // DISCONNECT, then close
    unsigned sub(const std::vector<mq::Filter> &f, const mq::Props &p = {}); // sends; returns packet id
    bool subscribe(const std::vector<mq::Filter> &f, const mq::Props &p = {}, std::vector<int> *codes = nullptr); // sends, settles, expects SUBACK (other packets stay in rx)
    bool unsubscribe(const std::vector<std::string> &f, std::vector<int> *codes = nullptr);
    void pub(const std::string &topic, const std::string &payload, int qos = 0, bool retain = false, const mq::Props &p = {}, unsigned id = 0);
    bool publish(const std::string &topic, const std::string &payload, int qos = 0, bool retain = false, const mq::Props &p = {}); // incl. full handshake
    std::vector<mq::Pkt> publishes(bool ack = true);     // pops all PUBLISH packets (acks them, completing QoS 2) until quiet
    std::optional<mq::Pkt> pop(int type = 0);            // first packet (of that type)
    std::vector<mq::Pkt> all() { pump(); std::vector<mq::Pkt> v(rx.begin(), rx.end()); rx.clear(); return v; }
    bool v5() const { return o.ver >= 5; }
    bool ping();
};

struct Server {
    int co = -1;
    std::string conf;
    std::string base = "/mcfs/flashmq.conf";
    bool start(const std::string &extra = "", bool with_base = true); // boots and runs until idle; true if listening
    void write_conf(const std::string &extra, bool with_base = true);
    bool stop();                                         // SIGTERM; true if it exited with status 0 within 120 virtual seconds
    void crash();                                        // power off
    bool running();
    int exit_code = -1;
    static std::string base_conf();
    void check_alive(const char *where);                 // fails on deadlock
    void reload();
};
void settle();                                           // sim::settle + deadlock check
void advance(uint64_t ms, uint64_t step = 0);
std::string hex(const std::string &s, size_t max = 200);
// explore schedules during the given function
void explore_schedules(int budget, const std::function<void()> &f);
}
