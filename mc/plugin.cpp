#include "plugin.h"
#include "sim.h"
#include <dlfcn.h>
#include <string.h>
namespace mc {
Plugin &plugin() { static Plugin p; return p; }
void install_plugin() { sim::fs::put("/mcfs/plugin.so", "plugin"); }
}
using namespace mc;
typedef std::unordered_map<std::string, std::string> Opts;
typedef const std::vector<std::pair<std::string, std::string>> *UP;
static int p_version() { return plugin().version; }
static void p_main_init(Opts &) { if (plugin().main_init) plugin().main_init(); }
static void p_main_deinit(Opts &) { if (plugin().main_deinit) plugin().main_deinit(); }
static void p_alloc(void **d, Opts &) { *d = new int(1); if (plugin().alloc) plugin().alloc(); }
static void p_dealloc(void *d, Opts &) { if (plugin().dealloc) plugin().dealloc(); delete (int*)d; }
static void p_init(void *, Opts &, bool r) { if (plugin().init) plugin().init(r); }
static void p_deinit(void *, Opts &, bool r) { if (plugin().deinit) plugin().deinit(r); }
static void p_periodic(void *) { if (plugin().periodic) plugin().periodic(); }
static AuthResult p_login(void *, const std::string &c, const std::string &u, const std::string &p, UP, const std::weak_ptr<Client> &w) { return plugin().login ? plugin().login(c, u, p, w) : AuthResult::success; }
static AuthResult ask(const AclQ &q) { return plugin().acl ? plugin().acl(q) : AuthResult::success; }
static AuthResult p_acl5(void *, const AclAccess a, const std::string &c, const std::string &u, const std::string &t, const std::vector<std::string> &st, const std::string &sh, std::string_view pl, const uint8_t q, const bool r,
    const std::optional<std::string> &co, const std::optional<std::string> &re, const std::optional<std::string> &ct, const std::optional<std::chrono::time_point<std::chrono::steady_clock>>, UP up)
{ return ask({a, c, u, t, st, sh, std::string(pl), q, r, co, re, ct, up ? *up : UserProps()}); }
static AuthResult p_acl4(void *, const AclAccess a, const std::string &c, const std::string &u, const std::string &t, const std::vector<std::string> &st, const std::string &sh, std::string_view pl, const uint8_t q, const bool r,
    const std::optional<std::string> &co, const std::optional<std::string> &re, UP up) { return ask({a, c, u, t, st, sh, std::string(pl), q, r, co, re, {}, up ? *up : UserProps()}); }
static AuthResult p_acl3(void *, const AclAccess a, const std::string &c, const std::string &u, const std::string &t, const std::vector<std::string> &st, std::string_view pl, const uint8_t q, const bool r,
    const std::optional<std::string> &co, const std::optional<std::string> &re, UP up) { return ask({a, c, u, t, st, "", std::string(pl), q, r, co, re, {}, up ? *up : UserProps()}); }
static AuthResult p_acl2(void *, const AclAccess a, const std::string &c, const std::string &u, const std::string &t, const std::vector<std::string> &st, std::string_view pl, const uint8_t q, const bool r, UP up) { return ask({a, c, u, t, st, "", std::string(pl), q, r, {}, {}, {}, up ? *up : UserProps()}); }
static AuthResult p_acl1(void *, const AclAccess a, const std::string &c, const std::string &u, const std::string &t, const std::vector<std::string> &st, const uint8_t q, const bool r, UP up) { return ask({a, c, u, t, st, "", "", q, r, {}, {}, {}, up ? *up : UserProps()}); }
static bool alter(PubQ q) { return plugin().alterpub && plugin().alterpub(q); }
static bool p_alt5(void *, const std::string &c, std::string &t, const std::vector<std::string> &st, std::string_view pl, uint8_t &q, bool &r, std::optional<std::string> &co, std::optional<std::string> &re, std::optional<std::string> &ct, std::vector<std::pair<std::string, std::string>> *up)
{ return alter({c, &t, st, std::string(pl), &q, &r, &co, &re, &ct, up}); }
static bool p_alt3(void *, const std::string &c, std::string &t, const std::vector<std::string> &st, std::string_view pl, uint8_t &q, bool &r, std::optional<std::string> &co, std::optional<std::string> &re, std::vector<std::pair<std::string, std::string>> *up)
{ return alter({c, &t, st, std::string(pl), &q, &r, &co, &re, nullptr, up}); }
static bool p_alt2(void *, const std::string &c, std::string &t, const std::vector<std::string> &st, std::string_view pl, uint8_t &q, bool &r, std::vector<std::pair<std::string, std::string>> *up) { return alter({c, &t, st, std::string(pl), &q, &r, nullptr, nullptr, nullptr, up}); }
static bool p_alt1(void *, const std::string &c, std::string &t, const std::vector<std::string> &st, uint8_t &q, bool &r, std::vector<std::pair<std::string, std::string>> *up) { return alter({c, &t, st, "", &q, &r, nullptr, nullptr, nullptr, up}); }
static bool p_altsub(void *, const std::string &c, std::string &t, const std::vector<std::string> &st, uint8_t &q, UP) { return plugin().altersub && plugin().altersub(c, t, st, q); }
static void p_disc(void *, const std::string &c) { if (plugin().disconnected) plugin().disconnected(c); }
static void p_unsub(void *, const std::weak_ptr<Session> &, const std::string &c, const std::string &u, const std::string &t, const std::vector<std::string> &st, const std::string &sh, UP) { if (plugin().unsubscribe) plugin().unsubscribe(c, u, t, st, sh); }
static AuthResult p_ext(void *, const std::string &c, ExtendedAuthStage s, const std::string &m, const std::string &d, UP, std::string &ret, std::string &user, const std::weak_ptr<Client> &w)
{ return plugin().extauth ? plugin().extauth(c, s, m, d, ret, user, w) : AuthResult::auth_method_not_supported; }
static void p_poll(void *, int fd, uint32_t ev, const std::weak_ptr<void> &) { if (plugin().poll) plugin().poll(fd, ev); }
static int magic;
extern "C" {
void *__real_dlopen(const char *, int); void *__real_dlsym(void *, const char *); int __real_dlclose(void *);
void *__wrap_dlopen(const char *f, int fl) { return f && !strcmp(f, "/mcfs/plugin.so") ? &magic : __real_dlopen(f, fl); }
int __wrap_dlclose(void *h) { return h == &magic ? 0 : __real_dlclose(h); }
void *__wrap_dlsym(void *h, const char *s)
{
    if (h != &magic) return __real_dlsym(h, s);
    int v = plugin().version; std::string n = s; if (n.compare(0, 15, "flashmq_plugin_")) return nullptr; n.erase(0, 15);
    if (n == "version") return (void*)p_version; if (n == "main_init") return (void*)p_main_init; if (n == "main_deinit") return (void*)p_main_deinit;
    if (n == "allocate_thread_memory") return (void*)p_alloc; if (n == "deallocate_thread_memory") return (void*)p_dealloc; if (n == "init") return (void*)p_init; if (n == "deinit") return (void*)p_deinit;
    if (n == "login_check") return (void*)p_login; if (n == "periodic_event") return (void*)p_periodic; if (n == "extended_auth") return (void*)p_ext; if (n == "alter_subscription") return (void*)p_altsub;
    if (n == "client_disconnected") return (void*)p_disc; if (n == "poll_event_received") return (void*)p_poll; if (n == "on_unsubscribe") return (void*)p_unsub;
    if (n == "acl_check") return v == 1 ? (void*)p_acl1 : v == 2 ? (void*)p_acl2 : v == 3 ? (void*)p_acl3 : v == 4 ? (void*)p_acl4 : (void*)p_acl5;
    if (n == "alter_publish") return v == 1 ? (void*)p_alt1 : v == 2 ? (void*)p_alt2 : v == 3 || v == 4 ? (void*)p_alt3 : (void*)p_alt5;
    return nullptr;
}
}
