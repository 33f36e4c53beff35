// P28 A bad configuration is refused and never half applied; a good one is accepted and in force.
#include "mqtt.h"
#include "model.h"
#include "pem.h"
extern int fmq_real_main(int, char **);
using namespace mc;
using namespace mq;
// ---- the documented options (man/flashmq.conf.5), independent of the parser ----------------------
enum Ctx { Root, Listen, Bridge };
struct Case { Ctx ctx; std::string line; bool valid; };
static std::vector<Case> cases;
static void add(Ctx c, const std::string &opt, const std::vector<std::string> &good, const std::vector<std::string> &bad)
{
    for (auto &g : good) cases.push_back({c, opt + " " + g, true});
    for (auto &b : bad) cases.push_back({c, opt + " " + b, false});
    if (!good.empty()) cases.push_back({c, opt, false});                               // no value
    if (!good.empty() && good[0].find(' ') == std::string::npos) {
        cases.push_back({c, opt + " \"" + good[0] + "\"", true});                       // quoting changes nothing
        cases.push_back({c, opt + " '" + good[0] + "'", true});
        cases.push_back({c, opt + "\t  " + good[0] + "  ", true}); cases.push_back({c, " \t" + opt + " " + good[0] + "\t", true});
        if (opt.find("plugin_opt") == 0) return;
        if (opt != "publish" && opt != "subscribe" && opt != "persistence_data_to_save") cases.push_back({c, opt + " " + good[0] + " extra", false}); // superfluous
        cases.push_back({c, opt + " \"" + good[0], false});                             // unterminated quote
        cases.push_back({c, opt + "x " + good[0], false});                              // similar, but unknown
    }
}
static void boolean(Ctx c, const std::string &opt) { add(c, opt, {"true", "false", "yes", "no", "on", "off"}, {"maybe", "truex", "2", "-1", "\"\"", "\"yes no\""}); }
static void number(Ctx c, const std::string &opt, const std::vector<std::string> &good, std::vector<std::string> bad)
{
    for (auto x : {"x", "10x", "1.5", "-1", "-2147483648", "99999999999999999999", "-99999999999999999999", "\"\"", "\"1 2\"", "0x10", "--5"}) bad.push_back(x);
    add(c, opt, good, bad);
}
static void choices(Ctx c, const std::string &opt, const std::vector<std::string> &good) { auto l = good.back(); add(c, opt, good, {"bogus", l + "x", l.substr(0, l.size() - 1), "\"\"", "1"}); }
static void network(Ctx c, const std::string &opt)
{
    add(c, opt, {"1.2.3.4", "1.2.3.4/16", "1.2.0.0/16", "2a01:1337::1", "2a01:1337::1/64", "0.0.0.0/0", "1.2.3.4/32", "::/0", "::1/128"},
        {"1.2.3.4/33", "1.2.3.4/x", "1.2.3.4/-1", "1.2.3.256", "1.2.3.4.5", "::1/129", "::1/x", "::1/-1", "::g", "localhost", "\"\"", "1"});
}
static void table()
{
    const char *M = "4294967295", *M1 = "4294967296";
    boolean(Root, "plugin_serialize_init"); boolean(Root, "plugin_serialize_auth_checks"); boolean(Root, "log_debug"); boolean(Root, "quiet"); boolean(Root, "log_subscriptions"); boolean(Root, "log_publishes");
    boolean(Root, "allow_unsafe_clientid_chars"); boolean(Root, "allow_unsafe_username_chars"); boolean(Root, "allow_anonymous"); boolean(Root, "zero_byte_username_is_anonymous"); boolean(Root, "wills_enabled"); boolean(Root, "subscription_identifiers_enabled");
    choices(Root, "log_level", {"debug", "info", "notice", "warning", "error", "none"});
    choices(Root, "mqtt3_qos_exceed_action", {"drop", "disconnect"});
    choices(Root, "retained_messages_mode", {"enabled", "enabled_without_persistence", "enabled_without_retaining", "downgrade", "drop", "disconnect_with_error"});
    choices(Root, "retained_messages_node_creation_limit_enforcement_mode", {"log", "reject"});
    choices(Root, "shared_subscription_targeting", {"round_robin", "sender_hash", "first"});
    choices(Root, "wildcard_subscription_deny_mode", {"deny_all", "deny_retained_only"});
    choices(Root, "overload_mode", {"log", "close_new_clients"});
    add(Root, "persistence_data_to_save", {"all", "sessions_and_subscriptions", "retained_messages", "bridge_info", "all !retained_messages", "sessions_and_subscriptions bridge_info", "!all", "\"all\" \"!bridge_info\""}, {"bogus", "all bogus", "!bogus", "all !", "!!all", "\"all !retained_messages\"", "\"\""});
    add(Root, "plugin_opt_foo", {"bar", "\"a b\""}, {});
    number(Root, "plugin_timer_period", {"60", "0", "1", "2147483647"}, {});
    number(Root, "max_string_length", {"4096", "100", "65535"}, {"65536"});
    number(Root, "max_packet_size", {"268435455", "1000", "65536"}, {"268435462", "2147483647", "2147483648", M});
    number(Root, "client_max_write_buffer_size", {"1048576", "4096", M}, {"4095", "0", M1});
    number(Root, "client_initial_buffer_size", {"1024", "256", "4096", "65536"}, {"0", "1000", "1025", "3", "-1024", "4294968320"});
    number(Root, "rlimit_nofile", {"1000000", "1", "1024"}, {"0"});
    number(Root, "expire_sessions_after_seconds", {"1209600", "0", "60", M}, {"1", "59", M1});
    number(Root, "save_state_interval", {"3623", "300", "86400"}, {"299", "0"});
    number(Root, "max_qos_msg_pending_per_client", {"512", "32", "65535"}, {"31", "0", "65536"});
    number(Root, "max_qos_bytes_pending_per_client", {"65536", "4096", M}, {"4095", "0", M1});
    number(Root, "max_qos", {"0", "1", "2"}, {"3", "256"});
    number(Root, "max_incoming_topic_alias_value", {"65535", "0"}, {"65536"});
    number(Root, "max_outgoing_topic_alias_value", {"65535", "0"}, {"65536"});
    number(Root, "thread_count", {"1", "2", "3", "0"}, {});
    number(Root, "expire_retained_messages_after_seconds", {"4294967295", "1", "2147483647", "2147483648"}, {"0", M1});
    number(Root, "retained_messages_delivery_limit", {"2048"}, {}); cases.erase(std::remove_if(cases.begin(), cases.end(), [](const Case &c) { return c.line.rfind("retained_messages_delivery_limit", 0) == 0 && !c.valid && c.line != "retained_messages_delivery_limit"; }), cases.end()); // deprecated and ignored
    number(Root, "retained_messages_node_limit", {"4294967295", "1"}, {"0", M1});
    number(Root, "retained_messages_node_creation_limit_enforcement_depth", {"65535", "0", "1"}, {"65536"});
    number(Root, "retained_messages_node_creation_limit", {"1", "1000", M}, {"0", M1});
    number(Root, "retained_message_max_payload_size", {"1", "1000", M}, {"0", M1});
    number(Root, "set_retained_message_defer_timeout", {"0", "1", "10000"}, {});
    number(Root, "set_retained_message_defer_timeout_spread", {"1000", "0"}, {});
    number(Root, "retained_message_node_lifetime", {"0", "1", "3600"}, {});
    number(Root, "subscription_node_lifetime", {"3600", "0"}, {});
    number(Root, "minimum_wildcard_subscription_depth", {"0", "1", "65535"}, {"65536"});
    number(Root, "max_topic_split_depth", {"128", "1", "65535"}, {"65536"});
    number(Root, "max_event_loop_drift", {"2000", "500"}, {"499", "0"});
    network(Root, "websocket_set_real_ip_from");
    add(Root, "storage_dir", {"/mcfs/store", "/mcfs/store/"}, {"/mcfs/absent", "/mcfs/flashmq.conf"});
    add(Root, "log_file", {"/mcfs/log", "/mcfs/store/new.log"}, {"/mcfs/absent/log"});
    add(Root, "mosquitto_password_file", {"/mcfs/pw"}, {"/mcfs/absent", "/mcfs/store"});
    add(Root, "mosquitto_acl_file", {"/mcfs/acl"}, {"/mcfs/absent", "/mcfs/store"});
    add(Root, "include_dir", {"/mcfs/inc", "/mcfs/empty"}, {"/mcfs/absent", "/mcfs/incbad", "/mcfs/incloop", "/mcfs/pw"});
    add(Root, "plugin", {}, {"/mcfs/absent.so"});
    // listeners: into "listen { port 1884 … }"
    number(Listen, "port", {"1885", "1", "65534"}, {"65536", "4294967297"});
    choices(Listen, "protocol", {"mqtt", "websockets"}); add(Listen, "protocol", {}, {"acme"}); // acme needs a redirect
    choices(Listen, "inet_protocol", {"ip4_ip6", "ip4", "ip6"}); add(Listen, "inet_protocol", {}, {"unix"}); // needs a path
    add(Listen, "inet4_bind_address", {"0.0.0.0", "127.0.0.1"}, {"1.2.3", "localhost", "::1", "1.2.3.256", "1.2.3.4/8"});
    add(Listen, "inet6_bind_address", {"::0", "::1", "2a01:1337::1"}, {"1.2.3.4", "localhost", "::g", "::1/64"});
    add(Listen, "unix_socket_path", {}, {"/mcfs/sock"}); // only for unix listeners
    add(Listen, "unix_socket_user", {"root", "0"}, {}); add(Listen, "unix_socket_group", {"root", "0"}, {});
    add(Listen, "unix_socket_mode", {"600", "0660", "777"}, {"888", "rw", "-1", "6x", "\"\"", "99999999999999999999999"});
    add(Listen, "fullchain", {}, {"/mcfs/absent", "/mcfs/pw"}); add(Listen, "privkey", {}, {"/mcfs/absent", "/mcfs/pw"});
    choices(Listen, "minimum_tls_version", {"tlsv1.1", "tlsv1.2", "tlsv1.3"});
    add(Listen, "client_verification_ca_file", {}, {"/mcfs/absent", "/mcfs/pw"}); add(Listen, "client_verification_ca_dir", {}, {"/mcfs/absent", "/mcfs/store"});
    boolean(Listen, "client_verification_still_do_authn"); boolean(Listen, "allow_anonymous"); boolean(Listen, "tcp_nodelay"); add(Listen, "drop_on_absent_certificate", {}, {"yes", "maybe"});
    choices(Listen, "overload_mode", {"log", "close_new_clients"});
    choices(Listen, "haproxy", {"off", "on", "client_verification", "client_verification_with_authn"});
    add(Listen, "acme_redirect_url", {"http://example.com/"}, {});
    number(Listen, "max_buffer_size", {"1048576", "1073741824"}, {"1073741825"});
    number(Listen, "max_qos", {"0", "1", "2"}, {"3"});
    choices(Listen, "mqtt3_qos_exceed_action", {"drop", "disconnect"});
    network(Listen, "only_allow_from"); network(Listen, "deny_from");
    // bridges: into "bridge { address … publish … }"
    add(Bridge, "address", {"192.0.2.2", "::1", "remote.example"}, {});
    number(Bridge, "port", {"1883", "1", "65535"}, {"65536"});
    choices(Bridge, "inet_protocol", {"ip4_ip6", "ip4", "ip6"}); add(Bridge, "inet_protocol", {}, {"unix"});
    choices(Bridge, "tls", {"off", "unverified"}); add(Bridge, "tls", {"on"}, {"true"});
    choices(Bridge, "minimum_tls_version", {"tlsv1.1", "tlsv1.2", "tlsv1.3"});
    add(Bridge, "fullchain", {}, {"/mcfs/absent", "/mcfs/pw"}); add(Bridge, "privkey", {}, {"/mcfs/absent", "/mcfs/pw"}); add(Bridge, "ca_file", {}, {"/mcfs/absent"}); add(Bridge, "ca_dir", {}, {"/mcfs/absent", "/mcfs/pw"});
    choices(Bridge, "protocol_version", {"mqtt3.1", "mqtt5", "mqtt3.1.1"});
    for (auto o : {"bridge_protocol_bit", "remote_clean_start", "local_clean_start", "remote_retain_available", "use_saved_clientid", "tcp_nodelay"}) boolean(Bridge, o);
    number(Bridge, "keepalive", {"60", "10", "65535"}, {"9", "0", "65536"});
    add(Bridge, "clientid_prefix", {"fmqbridge", "abcdefghij", "a"}, {"abcdefghijk", "a/b", "a#", "a+"});
    for (auto o : {"publish", "subscribe"}) add(Bridge, o, {"#", "sport/tennis/#", "a 0", "a 1", "a 2", "+/x", "\"with space\" 1"}, {"a 3", "a -1", "a x", "a 1 1", "a#", "a/#/b", "a+/b", "\"\""});
    for (auto o : {"remote_session_expiry_interval", "local_session_expiry_interval"}) number(Bridge, o, {"0", "1", M}, {M1});
    for (auto o : {"max_outgoing_topic_aliases", "max_incoming_topic_aliases"}) number(Bridge, o, {"0", "65535"}, {"65536"});
    add(Bridge, "local_username", {"u"}, {}); add(Bridge, "remote_username", {"u"}, {}); add(Bridge, "remote_password", {}, {"p"}); // MQTT 3: only with a user name
    for (auto o : {"local_prefix", "remote_prefix"}) add(Bridge, o, {"a/", "a/b/"}, {"a", "/a", "\"\""});
    number(Bridge, "connection_count", {"1"}, {"0", "2", "auto"}); // more than one only with MQTT 5
    number(Bridge, "max_buffer_size", {"1048576", "1073741824"}, {"1073741825"});
    // TLS
    for (auto l : {"fullchain /mcfs/c1.pem\nprivkey /mcfs/k1.pem", "privkey /mcfs/k2.pem\nfullchain /mcfs/c2.pem\nminimum_tls_version tlsv1.3", "fullchain /mcfs/c1.pem\nprivkey /mcfs/k1.pem\nclient_verification_ca_file /mcfs/c2.pem\nclient_verification_still_do_authn on", "fullchain /mcfs/c1.pem\nprivkey /mcfs/k1.pem\ndrop_on_absent_certificate yes", "fullchain /mcfs/c1.pem\nprivkey /mcfs/k1.pem\nprotocol websockets\nhaproxy on", "fullchain /mcfs/c1.pem\nprivkey /mcfs/k1.pem\nclient_verification_ca_dir /mcfs/store"}) cases.push_back({Listen, l, true});
    for (auto l : {"fullchain /mcfs/c1.pem", "privkey /mcfs/k1.pem", "fullchain /mcfs/c1.pem\nprivkey /mcfs/k2.pem", "fullchain /mcfs/k1.pem\nprivkey /mcfs/c1.pem", "fullchain /mcfs/c1.pem\nprivkey /mcfs/empty.pem", "fullchain /mcfs/empty.pem\nprivkey /mcfs/k1.pem", "fullchain /mcfs/c1.pem\nprivkey /mcfs/absent", "fullchain /mcfs/absent\nprivkey /mcfs/k1.pem\ndrop_on_absent_certificate yes", "fullchain /mcfs/c1.pem\nprivkey /mcfs/k1.pem\nclient_verification_ca_file /mcfs/pw", "fullchain /mcfs/c1.pem\nprivkey /mcfs/k1.pem\nclient_verification_ca_file /mcfs/empty.pem", "fullchain /mcfs/c1.pem\nprivkey /mcfs/k1.pem\nacme_redirect_url http://x/", "fullchain /mcfs/c1.pem\nprivkey /mcfs/k1.pem\nhaproxy client_verification\nclient_verification_ca_file /mcfs/c2.pem", "fullchain /mcfs/c1.pem\nprivkey /mcfs/k1.pem\ninet_protocol unix\nunix_socket_path /mcfs/sock", "client_verification_ca_file /mcfs/c1.pem"}) cases.push_back({Listen, l, false});
    for (auto l : {"tls on\nfullchain /mcfs/c1.pem\nprivkey /mcfs/k1.pem", "tls on\nca_file /mcfs/c1.pem", "tls unverified\nca_dir /mcfs/store\nport 8884"}) cases.push_back({Bridge, l, true});
    for (auto l : {"tls on\nfullchain /mcfs/c1.pem\nprivkey /mcfs/k2.pem", "tls on\nfullchain /mcfs/c1.pem", "tls on\nca_file /mcfs/pw", "tls on\nca_file /mcfs/empty.pem", "tls on\nca_file /mcfs/c1.pem\nca_dir /mcfs/store"}) cases.push_back({Bridge, l, false});
    // options where they don't belong, and unknown ones
    for (auto l : {"port 1885", "protocol mqtt", "address 192.0.2.2", "publish #", "bogus 1", "listen 1", "bridge 1", "Max_qos 1", "max-qos 1", "haproxy on", "keepalive 60"}) cases.push_back({Root, l, false});
    for (auto l : {"max_packet_size 1000", "address 192.0.2.2", "storage_dir /mcfs/store", "bogus 1", "thread_count 2", "keepalive 60", "plugin_opt_x 1"}) cases.push_back({Listen, l, false});
    for (auto l : {"max_packet_size 1000", "protocol mqtt", "max_qos 1", "bogus 1", "haproxy on", "allow_anonymous true"}) cases.push_back({Bridge, l, false});
    // combinations inside one block
    for (auto l : {"inet_protocol unix\nunix_socket_path /mcfs/sock", "protocol acme\nacme_redirect_url http://example.com/", "inet_protocol unix\nunix_socket_path /mcfs/sock\nunix_socket_mode 600\nunix_socket_user 0", "port 1885\nport 1886", "haproxy on\nonly_allow_from 127.0.0.1"}) cases.push_back({Listen, l, true});
    for (auto l : {"inet_protocol unix\nunix_socket_path /mcfs/sock\ninet4_bind_address 127.0.0.1", "inet_protocol unix\nunix_socket_path /mcfs/sock\nacme_redirect_url http://x/", "haproxy client_verification\nclient_verification_ca_file /mcfs/pw", "fullchain /mcfs/pw\nprivkey /mcfs/pw", "fullchain /mcfs/empty.pem\nprivkey /mcfs/empty.pem", "inet_protocol unix\nunix_socket_path /mcfs/store/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "fullchain /mcfs/absent\nprivkey /mcfs/absent", "fullchain /mcfs/pw\nprivkey /mcfs/pw\nacme_redirect_url http://x/"}) cases.push_back({Listen, l, false});
    for (auto l : {"fullchain /mcfs/absent\nprivkey /mcfs/absent\ndrop_on_absent_certificate yes"}) cases.push_back({Listen, l, true}); // not listened on
    for (auto l : {"remote_username u\nremote_password p", "protocol_version mqtt5\nremote_password p", "local_prefix a/\nremote_prefix b/", "connection_count auto\nprotocol_version mqtt5", "connection_count 2\nprotocol_version mqtt5"}) cases.push_back({Bridge, l, true});
    for (auto l : {"clientid_prefix same\npublish y\n}\nbridge {\naddress 192.0.2.3\nclientid_prefix same\npublish x", "fullchain /mcfs/pw", "ca_file /mcfs/pw\nca_dir /mcfs/store"}) cases.push_back({Bridge, l, false});
    for (auto l : {"}\nbridge {\naddress 192.0.2.3", "}\nbridge {\npublish #", "}\nbridge {"}) cases.push_back({Bridge, l, false}); // no topics / no address
}
static std::string word(const Case &c) { size_t a = c.line.find_first_not_of(" \t"), b = c.line.find_first_of(" \t\n", a); return c.line.substr(a, b == std::string::npos ? b : b - a); }
static std::string text(const Case &c)
{
    switch (c.ctx) {
    case Root: return c.line + "\n";
    case Listen: return "listen {\nport 1884\n" + c.line + "\n}\n";
    default: return "bridge {\naddress 192.0.2.1\npublish zz\n" + c.line + "\n}\n";
    }
}
static void world()
{
    using namespace sim::fs;
    mkdir("/mcfs"); mkdir("/mcfs/store"); mkdir("/mcfs/inc"); mkdir("/mcfs/empty"); mkdir("/mcfs/incbad"); mkdir("/mcfs/incloop"); put("/mcfs/incloop/a.conf", "include_dir /mcfs/incloop\n");
    put("/mcfs/pw", "anna:$6$TOK9OFsIcv0xEnrC$UT8bs4Kn9Y40fg4xqVVZzZYcTYvMTkLjjDRKoSlyxaxHOTgWVMgvXyJEpgVgCIYXIMTk1zwcsFHTYrMKOZuT2A==\n"); put("/mcfs/acl", "topic readwrite #\n");
    put("/mcfs/c1.pem", pem_c1); put("/mcfs/k1.pem", pem_k1); put("/mcfs/c2.pem", pem_c2); put("/mcfs/k2.pem", pem_k2);
    put("/mcfs/empty.pem", ""); put("/mcfs/inc/a.conf", "# fine\nmax_qos 2\n"); put("/mcfs/inc/b.txt", "bogus\n"); put("/mcfs/incbad/z.conf", "bogus_option 1\n");
    sim::net().resolve = [](const std::string &n, std::vector<std::string> &r) { r.push_back(n.find_first_not_of("0123456789.") == std::string::npos || n.find(':') != std::string::npos ? n : std::string("192.0.2.9")); return 0; };
    sim::net().connect = [](const std::string &, int) { return ECONNREFUSED; };
}
static int test_config()
{
    int co = sim::boot({"flashmq", "-t", "-c", "/mcfs/flashmq.conf"}, &fmq_real_main), rc = -1;
    settle(); REQUIRE(!sim::crashed(), "crash", "crashed by -t");
    REQUIRE(sim::finished(co, &rc), "test-hangs", "--test-config does not end");
    REQUIRE(sim::listening_ports().empty(), "test-listens", "--test-config makes the server listen");
    return rc;
}
// What is observable of the settings in force: the values announced to a new MQTT 5 client, and behaviour.
struct Sets { int qos = 2, alias = 65535, recv = 512; unsigned pkt = 268435455; bool anon = true, wills = true, ids = true; int retain = 0; bool second = false; int fail_at = 0; };
static std::string conf_of(const Sets &s, const std::string &tail = "")
{
    static const char *rm[] = {"enabled", "downgrade", "drop", "disconnect_with_error"};
    auto b = [](bool v) { return v ? "true\n" : "false\n"; };
    std::string t = "thread_count 2\nlog_level none\nmax_qos " + std::to_string(s.qos) + "\nmax_incoming_topic_alias_value " + std::to_string(s.alias) + "\nmax_qos_msg_pending_per_client " + std::to_string(s.recv) + "\nmax_packet_size " + std::to_string(s.pkt) + "\nallow_anonymous " + b(s.anon) + "wills_enabled " + b(s.wills) + "subscription_identifiers_enabled " + b(s.ids) + "retained_messages_mode " + rm[s.retain] + "\n";
    t += "listen {\nport 1883\nprotocol mqtt\ninet_protocol ip4\n}\n";
    if (s.second) t += "listen {\nport 1884\nprotocol mqtt\ninet_protocol ip4\nallow_anonymous true\n}\n";
    return t + tail;
}
static int probe_n = 0;
static void in_force(const Sets &s, const char *when)
{
    std::string id = "probe" + std::to_string(probe_n++);
    auto ports = sim::listening_ports(); std::set<int> ps(ports.begin(), ports.end()), want{1883}; if (s.second) want.insert(1884);
    REQUIRE(ps == want, "listeners", "%s: listening on %zu ports (%s1884), expected %s1884", when, ps.size(), ps.count(1884) ? "with " : "without ", s.second ? "with " : "without ");
    Cl c(id, 5); bool ok = c.connect();
    REQUIRE(ok == s.anon, "allow-anonymous", "%s: an anonymous client is %s", when, ok ? "accepted" : "refused");
    if (s.second) { Cl d(id + "x", 5); d.port = 1884; REQUIRE(d.connect(), "second-listener", "%s: the listener that allows anonymous clients refuses one", when); if (!ok) c = d; else d.disconnect(); ok = true; }
    if (!ok) return;
    auto num = [&](int p, long def) { auto a = find(c.connack.props, p); return a ? static_cast<long>(a->num) : def; };
    REQUIRE(num(P_MAXQOS, 2) == s.qos, "max-qos", "%s: announces maximum QoS %ld instead of %d", when, num(P_MAXQOS, 2), s.qos);
    REQUIRE(num(P_ALIASMAX, 0) == s.alias, "alias-max", "%s: announces topic alias maximum %ld instead of %d", when, num(P_ALIASMAX, 0), s.alias);
    REQUIRE(num(P_RECVMAX, 65535) == s.recv, "receive-max", "%s: announces receive maximum %ld instead of %d", when, num(P_RECVMAX, 65535), s.recv);
    REQUIRE(num(P_MAXPKT, 268435455) == static_cast<long>(s.pkt), "max-packet-size", "%s: announces maximum packet size %ld instead of %u", when, num(P_MAXPKT, 268435455), s.pkt);
    REQUIRE((num(P_SUBIDAVAIL, 1) == 1) == s.ids, "subscription-ids", "%s: announces subscription identifiers %ld", when, num(P_SUBIDAVAIL, 1));
    // retained messages
    std::string t = "ret/" + id;
    c.pub(t, "x", 0, true); settle(); c.pump();
    REQUIRE(c.closed() == (s.retain == 3), "retained-mode", "%s: publishing a retained message %s", when, c.closed() ? "ends the connection" : "is accepted");
    if (s.retain != 3) {
        REQUIRE(c.subscribe({{t, 0}}), "suback", "%s", when);
        size_t n = c.publishes().size(); REQUIRE((n == 1) == (s.retain == 0), "retained-mode", "%s: %zu retained messages for a new subscription", when, n);
        c.pub(t, "y", 0, true); settle(); auto v = c.publishes(); REQUIRE(v.size() == (s.retain == 2 ? 0u : 1u), "retained-mode", "%s: %zu messages for a retained publish", when, v.size());
        c.pub(t, "", 0, true); settle(); c.publishes();
        c.disconnect(); settle();
    }
    // wills
    if (s.anon || s.second) {
        Cl w("w" + id, 5), l("l" + id, 5); if (s.second) { w.port = 1884; l.port = 1884; }
        w.o.will = Will{"will", "gone", 0, false, {}};
        REQUIRE(w.connect() && l.connect() && l.subscribe({{"will", 0}}), "probe-connect", "%s", when);
        w.close(true); settle(); advance(5000, 500);
        size_t n = l.publishes().size(); REQUIRE((n == 1) == s.wills, "wills", "%s: %zu wills delivered with wills_enabled %d", when, n, s.wills);
        l.disconnect(); settle();
    }
}
static const Sets S0;
static Sets other() { Sets s; s.qos = 1; s.pkt = 5000; s.recv = 100; s.ids = false; s.retain = 1; return s; }
CHECK(P28, "")
{
    int part = param("part", -1); if (part < 0) part = choose(5, "part");
    world(); table();
    if (part == 0) { // every option and value, at start and with --test-config
        int i = choose(cases.size(), "case"); const Case &c = cases[i];
        std::string cf = conf_of(S0) + text(c);
        sim::fs::put("/mcfs/flashmq.conf", cf);
        if (choose(2, "mode") == 0) {
            note("flashmq --test-config with: %s", hex(text(c)).c_str());
            auto before = sim::fs::list("/mcfs/store");
            int rc = test_config();
            REQUIRE((rc == 0) == c.valid, c.valid ? "test-refuses-valid" : "test-accepts-invalid", "--test-config of a %s configuration ends with status %d: %s", c.valid ? "valid" : "wrong", rc, text(c).c_str());
            REQUIRE(before == sim::fs::list("/mcfs/store"), "test-writes", "--test-config writes into the storage directory");
            done();
        }
        note("start with: %s", hex(text(c)).c_str());
        Server s; bool up = s.start(cf, false);
        REQUIRE(!sim::crashed(), "crash", "crashed by: %s", text(c).c_str());
        if (!c.valid) {
            REQUIRE(!up && !s.running() && s.exit_code != 0 && sim::listening_ports().empty(), "starts-invalid", "started with a wrong configuration: %s", text(c).c_str());
            done();
        }
        REQUIRE(up && s.running(), "refuses-valid", "does not start (status %d) with a valid configuration: %s", s.exit_code, text(c).c_str());
        Cl a("ok", 4); bool ok = a.connect();
        bool anon = word(c) == "allow_anonymous" && c.ctx == Root ? (c.line.find("true") != std::string::npos || c.line.find("yes") != std::string::npos || c.line.find(" on") != std::string::npos) : true;
        REQUIRE(ok == anon, "not-working", "started with a valid configuration, but a client is %s: %s", ok ? "accepted" : "refused", text(c).c_str());
        if (ok && word(c) != "max_qos" && c.line.find("acl") == std::string::npos) { REQUIRE(a.subscribe({{"t", 0}}), "not-working", "no SUBACK with %s", text(c).c_str()); a.pub("t", "hello", 0); settle(); REQUIRE(a.publishes().size() == 1, "not-working", "no delivery with %s", text(c).c_str()); }
        REQUIRE(s.stop(), "stop", "does not stop with %s", text(c).c_str());
        done();
    }
    if (part == 1) { // every option and value by reload, after other options that would change: all or nothing
        Server s; REQUIRE(s.start(conf_of(S0), false), "boot", "no start");
        Cl a("A", 5), b("B", 4); REQUIRE(a.connect() && a.subscribe({{"keep", 1}}) && b.connect(), "connect", "A, B");
        int i = choose(cases.size(), "case"); const Case &c = cases[i];
        static const std::set<std::string> shown = {"max_qos", "max_packet_size", "subscription_identifiers_enabled", "retained_messages_mode", "max_qos_msg_pending_per_client"}, also = {"wills_enabled", "allow_anonymous", "max_incoming_topic_alias_value"};
        if (c.valid && c.ctx == Root && shown.count(word(c))) prune(); // in part 2
        Sets t = other(), f = c.valid ? t : S0; bool wild = word(c) == "include_dir";
        if (c.valid && wild) prune(); // sets max_qos too
        bool after = choose(2, "place");
        std::string cf = after ? conf_of(t, text(c)) : text(c) + conf_of(t);
        if (after && c.valid && c.ctx == Root && also.count(word(c))) prune(); // the later line counts
        note("reload with %s: %s", c.valid ? "valid" : "invalid", hex(text(c)).c_str());
        s.write_conf(cf, false); s.reload(); advance(1000, 250);
        REQUIRE(!sim::crashed() && s.running(), "crash", "the server died of a reload with %s", text(c).c_str());
        a.pump(); b.pump(); REQUIRE(!a.closed() && !b.closed(), "client-dropped", "an existing client was disconnected by a reload with %s", text(c).c_str());
        b.pub("keep", "m", 0); settle(); REQUIRE(a.publishes().size() == 1, "existing-client", "an existing client gets no messages after a reload with %s", text(c).c_str());
        auto ports = sim::listening_ports(); std::multiset<int> ps(ports.begin(), ports.end());
        if (!c.valid) { REQUIRE(ps == std::multiset<int>{1883}, "listeners", "after a refused reload the server listens on %zu ports: %s", ps.size(), text(c).c_str()); }
        else REQUIRE(ps.count(1883) == 1, "listeners", "after a reload the server doesn't listen on 1883: %s", text(c).c_str());
        Cl d("D", 5); bool ok = d.connect(); REQUIRE(ok, "no-new-clients", "no new clients after a reload with %s", text(c).c_str());
        auto num = [&](int p, long def) { auto x = find(d.connack.props, p); return x ? static_cast<long>(x->num) : def; };
        REQUIRE(num(P_MAXQOS, 2) == f.qos && num(P_MAXPKT, 268435455) == static_cast<long>(f.pkt) && num(P_RECVMAX, 65535) == f.recv && (num(P_SUBIDAVAIL, 1) == 1) == f.ids, c.valid ? "reload-refuses-valid" : "reload-half-applied",
            "after a reload with a %s configuration: maximum QoS %ld (expected %d), packet size %ld (%u), receive maximum %ld (%d): %s", c.valid ? "valid" : "wrong", num(P_MAXQOS, 2), f.qos, num(P_MAXPKT, 268435455), f.pkt, num(P_RECVMAX, 65535), f.recv, text(c).c_str());
        count("values");
        done();
    }
    if (part == 2) { // histories of reloads
        Server s; REQUIRE(s.start(conf_of(S0), false), "boot", "no start");
        Cl a("A", 4), b("B", 5); REQUIRE(a.connect() && a.subscribe({{"keep", 1}}) && b.connect(), "connect", "A, B");
        Sets f; int depth = param("depth", thorough() ? 4 : 3);
        static const char *bad[] = {"bogus 1\n", "listen {\n", "max_qos 3\n", "listen {\nport 1885\ninet_protocol ip4\ninet4_bind_address nonsense\n}\n", "bridge {\naddress 192.0.2.1\n}\n", "storage_dir /mcfs/absent\n", "max_packet_size 99999999999999999999\n"};
        for (int i = 0; i < depth; i++) {
            int k = choose(20, "reload");
            Sets n = f; std::string tail; bool ok = true;
            switch (k) {
            case 0: n.qos = n.qos == 2 ? 0 : 2; break; case 1: n.alias = n.alias ? 0 : 65535; break; case 2: n.recv = n.recv == 512 ? 40 : 512; break; case 3: n.pkt = n.pkt == 5000 ? 268435455 : 5000; break;
            case 4: n.anon = !n.anon; break; case 5: n.wills = !n.wills; break; case 6: n.ids = !n.ids; break; case 7: n.retain = n.retain == 1 ? 0 : 1; break; case 8: n.retain = n.retain == 2 ? 0 : 2; break; case 9: n.retain = n.retain == 3 ? 0 : 3; break;
            case 10: n.second = !n.second; break; case 11: break; // unchanged
            default: { ok = false; n.qos = 1; n.alias = 7; n.recv = 77; n.pkt = 7777; n.wills = !n.wills; n.ids = !n.ids; n.second = !n.second; n.retain = n.retain ? 0 : 1; if (k < 19) tail = bad[k - 12]; } break;
            }
            note("reload %d: %s %s", i, ok ? "valid, change" : "invalid", ok ? std::to_string(k).c_str() : k == 19 ? "the file is gone" : hex(tail).c_str());
            if (k == 19) sim::fs::remove(s.base); else s.write_conf(conf_of(n, tail), false);
            s.reload(); if (ok) f = n;
            REQUIRE(!sim::crashed() && s.running(), "crash", "the server died of a reload");
            a.pump(); b.pump(); REQUIRE(!a.closed() && !b.closed(), "client-dropped", "an existing client was disconnected by a reload");
            b.pub("keep", "m", 0); settle(); REQUIRE(a.publishes().size() == 1, "existing-client", "an existing client gets no messages after a reload");
            in_force(f, ok ? "after a reload with a valid configuration" : "after a reload with a wrong configuration");
            if (!ok) { s.write_conf(conf_of(f), false); }
        }
        REQUIRE(s.stop(), "stop", "does not stop");
        done();
    }
    if (part == 3) { // the structure of the file: every sequence of lines up to a length
        static const char *alpha[] = {"listen {", "bridge {", "}", "port 1884", "publish zz", "max_qos 1", "address 192.0.2.1", "# listen {", "listen{", "other {", "{", "listen { port 1884 }", "", "} x", "bridge"};
        int len = param("len", thorough() ? 5 : 4), n = sizeof alpha / sizeof *alpha;
        std::vector<std::string> lines; int ctx = -1; bool ok = true, addr = false, pub = false, dup = false; int bridges = 0, liststart = 0;
        for (int i = 0; i < len; i++) {
            int k = choose(n + 1, "line"); if (k == n) break;
            std::string l = alpha[k]; lines.push_back(l);
            if (l.empty() || l[0] == '#') continue;
            if (l == "listen {" || l == "listen{" || l == "bridge {") { if (ctx >= 0) ok = false; ctx = l[0] == 'l' ? 0 : 1; addr = pub = false; if (ctx == 0) liststart++; }
            else if (l == "}") { if (ctx < 0) ok = false; if (ctx == 1) { if (!addr || !pub) ok = false; bridges++; } ctx = -1; }
            else if (l == "port 1884") { if (ctx < 0) ok = false; }
            else if (l == "publish zz") { if (ctx != 1) ok = false; pub = true; }
            else if (l == "address 192.0.2.1") { if (ctx != 1) ok = false; addr = true; }
            else if (l == "max_qos 1") { if (ctx == 1) ok = false; }
            else ok = false;
        }
        if (ctx >= 0) ok = false;
        if (bridges > 1) dup = true; // same client id prefix twice
        std::string t; for (auto &l : lines) t += l + "\n"; if (choose(2, "ends") && !t.empty()) t.pop_back();
        note("file: %s", hex(t).c_str());
        sim::fs::put("/mcfs/flashmq.conf", t);
        int rc = test_config();
        REQUIRE((rc == 0) == (ok && !dup), ok && !dup ? "test-refuses-valid" : "test-accepts-invalid", "--test-config ends with status %d for: %s", rc, t.c_str());
        done();
    }
    { // settings that show elsewhere
        int which = choose(7, "setting");
        if (which == 0) { // log_level: exactly the lines of that level and above
            static const char *lv[] = {"debug", "info", "notice", "warning", "error", "none"}, *tag[] = {"[DEBUG]", "[INFO]", "[NOTICE]", "[WARNING]", "[ERROR]"};
            int l = choose(6, "level"); bool by_reload = choose(2, "by reload");
            std::string cf = std::string("log_file /mcfs/log\nlisten {\nport 1883\nprotocol mqtt\ninet_protocol ip4\n}\nallow_anonymous true\nthread_count 2\n");
            Server s; REQUIRE(s.start(cf + "log_level " + (by_reload ? lv[(l + 3) % 6] : lv[l]) + "\n", false), "boot", "no start");
            if (by_reload) { s.write_conf(cf + "log_level " + lv[l] + "\n", false); s.reload(); advance(2000, 250); }
            sim::fs::put("/mcfs/log", "");
            note("log_level %s%s", lv[l], by_reload ? " by a reload" : "");
            Cl a("a", 4), b("b", 4); REQUIRE(a.connect() && b.connect(), "connect", "a");
            a.raw(std::string("\x00\x00\x00\x00", 4)); settle(); b.close(true); settle(); // an error and an ordinary leave
            s.write_conf(cf + "log_level " + lv[l] + "\nretained_messages_delivery_limit 5\n", false); s.reload(); // logs a warning
            s.write_conf(cf + "bogus 1\n", false); s.reload(); // an error
            advance(3000, 250);
            std::string log; sim::fs::get("/mcfs/log", log);
            for (int i = 0; i < 5; i++) {
                bool there = log.find(tag[i]) != std::string::npos;
                if (i < l) REQUIRE(!there, "log-level", "log_level %s, but a line of level %s is logged", lv[l], lv[i]);
                else if (i > 1) REQUIRE(there, "log-level", "log_level %s, but no line of level %s is logged:\n%s", lv[l], lv[i], log.c_str());
            }
            done();
        }
        if (which == 1) { // tcp_nodelay for listeners and bridges
            int v = choose(3, "value"), who = choose(2, "who");
            std::string o = v == 0 ? "" : v == 1 ? "tcp_nodelay true\n" : "tcp_nodelay false\n";
            sim::net().connect = [](const std::string &, int) { return 0; };
            Server s; REQUIRE(s.start(std::string("thread_count 2\nlog_level none\nallow_anonymous true\nlisten {\nport 1883\nprotocol mqtt\ninet_protocol ip4\n") + (who == 0 ? o : "") + "}\n" + (who ? "bridge {\naddress 192.0.2.1\npublish zz\n" + o + "}\n" : ""), false), "boot", "no start");
            advance(10000, 1000);
            if (who == 0) { Cl a("a", 4); REQUIRE(a.connect(), "connect", "a"); REQUIRE(a.c->nodelay == (v == 1), "tcp-nodelay", "TCP_NODELAY of a client is %d with %s", a.c->nodelay, o.c_str()); }
            else { REQUIRE(!sim::outgoing().empty(), "bridge-connect", "the bridge makes no connection"); REQUIRE(sim::outgoing()[0]->nodelay == (v == 1), "tcp-nodelay", "TCP_NODELAY of a bridge is %d with %s", sim::outgoing()[0]->nodelay, o.c_str()); }
            done();
        }
        if (which == 2) { // include_dir: *.conf of the directory, the rest of the file too
            int k = choose(4, "files");
            sim::fs::mkdir("/mcfs/d"); if (k & 1) sim::fs::put("/mcfs/d/1.conf", "max_qos 1\n"); if (k & 2) sim::fs::put("/mcfs/d/2.conf", "max_packet_size 5000\nlisten {\nport 1884\nprotocol mqtt\ninet_protocol ip4\nallow_anonymous true\n}\n"); sim::fs::put("/mcfs/d/3.txt", "bogus\n");
            Sets f; if (k & 1) f.qos = 1; if (k & 2) { f.pkt = 5000; f.second = true; }
            Server s; bool by_reload = choose(2, "by reload");
            if (by_reload) { REQUIRE(s.start(conf_of(S0), false), "boot", "no start"); s.write_conf(conf_of(S0, "include_dir /mcfs/d\n"), false); s.reload(); }
            else REQUIRE(s.start(conf_of(S0, "include_dir /mcfs/d\n"), false), "boot", "no start");
            in_force(f, "with include_dir"); done();
        }
        if (which == 3) { // many values on one line, long lines
            int len = 250 + choose(14, "length"); std::string l = "plugin_opt_x "; l += std::string(len - l.size(), 'a');
            bool comment = choose(2, "comment"); if (comment) l[0] = '#';
            if (choose(2, "include")) { len = 200000; l = std::string(comment ? "# " : "") + "include_dir /mcfs/" + std::string(len, 'a'); }
            sim::fs::put("/mcfs/flashmq.conf", conf_of(S0) + l + "\n"); int rc = test_config();
            REQUIRE(rc == 0 || (len > 256 && !comment), "test-refuses-valid", "a line of %d characters is refused", len);
            Server s; bool up = s.start(conf_of(S0) + l + "\n", false); REQUIRE(up == (rc == 0), "test-differs", "--test-config ends with status %d, but the server %s", rc, up ? "starts" : "doesn't start"); done();
        }
        if (which == 4) { // a listener that can't be made because something else listens there: the others stay
            int k = choose(2, "order"); sim::busy_port(1884);
            std::string l = "listen {\nport 1884\nprotocol mqtt\ninet_protocol ip4\n}\n", base = conf_of(S0);
            Server s;
            if (choose(2, "by reload") == 0) { bool up = s.start(k ? base + l : l + base, false); REQUIRE(!up && !s.running() && s.exit_code != 0, "starts-invalid", "started although a port is taken"); done(); }
            REQUIRE(s.start(base, false), "boot", "no start"); Cl a("A", 5); REQUIRE(a.connect(), "connect", "A");
            s.write_conf(k ? base + l : l + base, false); s.reload(); advance(1000, 250);
            a.pump(); REQUIRE(s.running() && !a.closed(), "client-dropped", "an existing client was disconnected by a reload"); in_force(S0, "after a reload with a taken port"); done();
        }
        if (which == 5) { // certificates that became wrong, or right, between reloads
            std::string l = "listen {\nport 1884\nprotocol mqtt\ninet_protocol ip4\nfullchain /mcfs/a.pem\nprivkey /mcfs/b.pem\nclient_verification_ca_file /mcfs/ca.pem\n}\n";
            auto ok = [] { sim::fs::put("/mcfs/a.pem", pem_c1); sim::fs::put("/mcfs/b.pem", pem_k1); sim::fs::put("/mcfs/ca.pem", pem_c2); };
            ok(); Server s; REQUIRE(s.start(conf_of(S0) + l, false), "boot", "no start");
            Cl a("A", 5); REQUIRE(a.connect(), "connect", "A");
            for (int i = 0; i < 2; i++) {
                int f = choose(3, "file"), how = choose(5, "how"); std::string n = f == 0 ? "/mcfs/a.pem" : f == 1 ? "/mcfs/b.pem" : "/mcfs/ca.pem", t = f == 0 ? pem_c2 : f == 1 ? pem_k2 : pem_c1;
                bool good = how == 4 && f == 2; // another CA is fine; another certificate without its key is not
                if (how == 0) sim::fs::remove(n); else sim::fs::put(n, how == 1 ? "" : how == 2 ? "garbage\n" : how == 3 ? t.substr(0, t.size() / 2) : t);
                Sets o = other(); o.retain = 0;
                note("reload with %s %s", n.c_str(), how == 0 ? "gone" : how == 1 ? "empty" : how == 2 ? "garbage" : how == 3 ? "truncated" : "of another pair");
                s.write_conf(conf_of(good ? S0 : o) + l, false); s.reload();
                REQUIRE(!sim::crashed() && s.running(), "crash", "the server died of a reload"); a.pump(); REQUIRE(!a.closed(), "client-dropped", "an existing client was disconnected by a reload");
                auto v = sim::listening_ports(); REQUIRE((std::set<int>(v.begin(), v.end()) == std::set<int>{1883, 1884} && v.size() == 2), "listeners", "after a reload with %s wrong: listening on %zu ports", n.c_str(), v.size());
                Cl d("D", 5); REQUIRE(d.connect(), "no-new-clients", "no new clients"); auto x = find(d.connack.props, P_MAXQOS); REQUIRE((!x || x->num == 2), "reload-half-applied", "a refused reload (certificates) changed max_qos"); d.disconnect(); settle();
                ok(); s.write_conf(conf_of(S0) + l, false); s.reload();
            }
            done();
        }
        // command line
        static const std::vector<std::vector<std::string>> args = {{"flashmq", "-V"}, {"flashmq", "--version"}, {"flashmq", "-h"}, {"flashmq", "--bogus"}, {"flashmq", "/mcfs/flashmq.conf"}, {"flashmq", "-t", "-c", "/mcfs/absent"}, {"flashmq", "-c", "/mcfs/absent"}, {"flashmq", "--test-config", "--config-file", "/mcfs/flashmq.conf"}};
        int k = choose(args.size(), "arguments"), rc = -1;
        sim::fs::put("/mcfs/flashmq.conf", conf_of(S0));
        int co = sim::boot(args[k], &fmq_real_main); settle(); advance(500, 100);
        REQUIRE(!sim::crashed() && sim::finished(co, &rc), "arguments", "does not end");
        bool ok = k < 2 || k == 7; REQUIRE((rc == 0) == ok && sim::listening_ports().empty(), "arguments", "status %d for arguments %d", rc, k);
        done();
    }
}
