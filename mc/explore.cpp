#include "explore.h"
#include "sim.h"
#include "race.h"
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <map>
#include <execinfo.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

static std::vector<CheckDef> &checks() { static std::vector<CheckDef> v; return v; }
void register_check(const CheckDef &d) { checks().push_back(d); }

struct Viol { std::atomic<int> state; char sig[256]; char msg[4096]; char hist[24576]; int ntrail; uint16_t trail[8192]; };
struct Counter { char name[48]; std::atomic<long> n; };
constexpr int MAXV = 24, NSAMPLE = 6, NCOUNT = 40;
constexpr uint64_t HS = 1 << 24;
struct Shared {
    std::atomic<int> tokens, live, nviol, nreal, nsamples, ncounters, known_hit[16];
    std::atomic<long> executions, choices, forks, ops, pruned, states, states_dropped, stopped, schedpoints;
    std::atomic<int> lock;
    std::atomic<bool> stop;
    int64_t deadline;
    Viol v[MAXV];
    char samples[NSAMPLE][3000];
    Counter counters[NCOUNT];
    std::atomic<uint64_t> hs[HS];
};
static Shared *S;
static std::vector<uint16_t> trail;
static std::vector<uint16_t> replay_trail; static bool replay_mode = false;
static std::string hist;
static bool opt_thorough = false; static bool have_token = true; // this process holds a token
static std::map<std::string, int> params;
static int max_viol = 4;
static std::vector<std::string> known_sigs;

static int64_t wall_ms() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec * 1000ll + t.tv_nsec / 1000000; }
bool replaying() { return replay_mode; }
bool thorough() { return opt_thorough; }
int param(const char *n, int d) { auto it = params.find(n); return it == params.end() ? d : it->second; }
std::string history() { return hist; }

static uint64_t hist_hash = 1469598103934665603ull;
static void state_hash(uint64_t h)
{
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; if (!h) h = 1;
    for (uint64_t i = 0; i < 64; i++) {
        auto &e = S->hs[(h + i) & (HS - 1)];
        uint64_t z = 0;
        if (e.load() == h) return;
        if (e.compare_exchange_strong(z, h)) { S->states++; return; }
        if (z == h) return;
    }
    S->states_dropped++;
}
void note(const char *fmt, ...)
{
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    hist += b; hist += "\n";
    for (const char *p = b; *p; p++) { hist_hash ^= (unsigned char)*p; hist_hash *= 1099511628211ull; }
    hist_hash ^= 10; hist_hash *= 1099511628211ull;
    state_hash(hist_hash);
    if (replay_mode) { dprintf(100, "%s\n", b); }
}
void op() { S->ops++; }
static uint64_t hashs(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; return h ? h : 1; }
void state(const std::string &s) { state_hash(hashs(s)); }
void sample(const std::string &s)
{
    if (S->nsamples.load() >= NSAMPLE) return;
    int i = S->nsamples.fetch_add(1);
    if (i < NSAMPLE) snprintf(S->samples[i], sizeof S->samples[i], "%s", s.c_str());
}
void count(const char *name, long n)
{
    int k = S->ncounters.load();
    for (int i = 0; i < k && i < NCOUNT; i++) if (!strcmp(S->counters[i].name, name)) { S->counters[i].n += n; return; }
    int z = 0;
    while (!S->lock.compare_exchange_weak(z, 1)) z = 0;
    k = S->ncounters.load();
    int f = -1;
    for (int i = 0; i < k && i < NCOUNT; i++) if (!strcmp(S->counters[i].name, name)) f = i;
    if (f < 0 && k < NCOUNT) { snprintf(S->counters[k].name, sizeof S->counters[k].name, "%s", name); f = k; S->ncounters = k + 1; }
    S->lock = 0;
    if (f >= 0) S->counters[f].n += n;
}

[[noreturn]] static void leave()
{
    if (have_token) S->tokens++;
    S->live--;
    _exit(0);
}
void done() { S->executions++; if (S->nsamples.load() < NSAMPLE && (S->executions.load() % 97) == 1) sample(hist); leave(); }
void prune() { S->pruned++; leave(); }

static void record(const char *sig, const char *msg)
{
    if (const char *f = getenv("MC_COLLECT")) { // list every failure instead of stopping at the first few (for development)
        if (FILE *o = ::fopen(f, "a")) { std::string m = msg; for (auto &c : m) if (c == '\n') c = '~'; fprintf(o, "%s: %.600s\n", sig, m.c_str()); ::fclose(o); }
        return;
    }
    bool known = false;
    for (size_t k = 0; k < known_sigs.size() && k < 16; k++) if (known_sigs[k] == sig) { known = true; if (S->known_hit[k].exchange(1)) return; }
    int i = S->nviol.fetch_add(1);
    if (i < MAXV) {
        Viol &v = S->v[i];
        snprintf(v.sig, sizeof v.sig, "%s", sig);
        snprintf(v.msg, sizeof v.msg, "%s", msg);
        size_t n = hist.size(), m = sizeof v.hist - 1;
        snprintf(v.hist, sizeof v.hist, "%s", hist.c_str() + (n > m ? n - m : 0));
        v.ntrail = std::min<size_t>(trail.size(), 8192);
        for (int k = 0; k < v.ntrail; k++) v.trail[k] = trail[k];
        v.state = 1;
    }
    if (!known && S->nreal.fetch_add(1) + 1 >= max_viol) S->stop = true;
}
bool known_sig(const std::string &sig) { for (size_t k = 0; k < known_sigs.size() && k < 16; k++) if (known_sigs[k] == sig) { if (!replaying()) S->known_hit[k] = 1; return true; } return false; }
void fail(const std::string &sig, const char *fmt, ...)
{
    char b[3500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    record(sig.c_str(), b);
    leave();
}
static void on_signal(int sig, siginfo_t *si, void *)
{
    static volatile int nested = 0;
    if (nested) _exit(71);
    nested = 1;
    char b[1200]; int n = snprintf(b, sizeof b, "server process died with signal %d (%s) address %p; backtrace:", sig, strsignal(sig), si ? si->si_addr : nullptr);
    void *bt[24]; int k = backtrace(bt, 24);
    char **syms = backtrace_symbols(bt, k);
    for (int i = 2; i < k && n < 1100; i++) n += snprintf(b + n, sizeof b - n, " %s", syms ? (strrchr(syms[i], '/') ? strrchr(syms[i], '/') : syms[i]) : "?");
    record("crash", b);
    leave();
}
static volatile uint64_t wd_last; static volatile int wd_same;
static void on_timer(int)
{
    uint64_t s = sim::switches() + sim::step_count();
    if (s == wd_last) { wd_same = wd_same + 1; if (wd_same >= 8) { record("hang", "a server thread uses CPU without end (no system call for 16 s CPU time)"); leave(); } }
    else { wd_last = s; wd_same = 0; }
}
static void arm()
{
    struct itimerval it; it.it_interval = {2, 0}; it.it_value = {2, 0};
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

int choose(int n, const char *label)
{
    if (n <= 0) fail("harness", "choose(%d) at %s", n, label);
    if (n == 1) return 0;
    if (replay_mode) {
        if (trail.size() >= replay_trail.size()) { trail.push_back(0); return 0; }
        int r = replay_trail[trail.size()];
        trail.push_back(r);
        if (r >= n) { dprintf(100, "replay diverged at %s\n", label); _exit(73); }
        return r;
    }
    S->choices++;
    for (int i = 0; i < n - 1; i++) {
        if (S->stop || (S->deadline && wall_ms() > S->deadline)) { S->stopped++; leave(); }
        int t = S->tokens.load();
        bool got = false;
        while (t > 0) if (S->tokens.compare_exchange_weak(t, t - 1)) { got = true; break; }
        S->live++;
        S->forks++;
        pid_t p = fork();
        if (p < 0) { // out of processes: wait and retry once
            S->live--; if (got) S->tokens++;
            record("harness", "fork failed"); leave();
        }
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, 0);
            arm();
            have_token = got;
            trail.push_back(i);
            return i;
        }
        if (!got) {
            // the child uses our processor slot; wait for it
            int st; 
            while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
            if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
                trail.push_back(i);
                char b[100]; snprintf(b, sizeof b, "exploration process ended abnormally (status %x)", st);
                record("crash", b);
                trail.pop_back();
                S->live--;
            }
        }
    }
    trail.push_back(n - 1);
    return n - 1;
}

static void run_child(const CheckDef &d, bool replay)
{
    replay_mode = replay;
    sim::init();
    sim::set_stop_handler([](const std::string &w) { fail("stop", "%s", w.c_str()); });
    static char altstack[65536 * 4];
    stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
#if !defined(__SANITIZE_ADDRESS__)
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
#endif
    sigaction(SIGABRT, &sa, nullptr);
    struct sigaction st{}; st.sa_handler = on_timer; st.sa_flags = SA_RESTART;
    sigaction(SIGVTALRM, &st, nullptr);
    arm();
    hist.reserve(1 << 16);
    d.run();
    done();
}

static std::string jesc(const char *s)
{
    std::string r;
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

int main_explore(int argc, char **argv)
{
    race::prepare();
    std::string id, out, replay_s; int jobs = sysconf(_SC_NPROCESSORS_ONLN); int limit_s = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--check") id = next();
        else if (a == "--thorough") opt_thorough = true;
        else if (a == "--out") out = next();
        else if (a == "--replay") replay_s = next();
        else if (a == "--jobs") jobs = atoi(next().c_str());
        else if (a == "--limit") limit_s = atoi(next().c_str());
        else if (a == "--known") known_sigs.push_back(next());
        else if (a == "--max-violations") max_viol = atoi(next().c_str());
        else if (a == "--verbose") sim::verbose = true;
        else if (a == "--set") { std::string kv = next(); auto e = kv.find('='); params[kv.substr(0, e)] = atoi(kv.c_str() + e + 1); }
        else if (a == "--list") { for (auto &c : checks()) printf("%s\n", c.id); return 0; }
    }
    const CheckDef *d = nullptr;
    for (auto &c : checks()) if (id == c.id) d = &c;
    if (!d) { fprintf(stderr, "unknown check %s\n", id.c_str()); return 2; }
    S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    S->tokens = jobs - 1;
    S->deadline = limit_s ? wall_ms() + limit_s * 1000ll : 0;
    dup2(1, 101);   // report stream
    dup2(2, 100);   // trace stream in replay mode
    if (!sim::verbose) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2); }
    int64_t t0 = wall_ms();

    auto run_replay = [&](const std::vector<uint16_t> &t, std::string &sig) {
        S->nviol = 0; S->stop = false; for (auto &k : S->known_hit) k = 0;
        replay_trail = t;
        int before = S->nviol;
        S->live = 1;
        pid_t p = fork();
        if (p == 0) { run_child(*d, true); }
        int st; waitpid(p, &st, 0);
        if (S->nviol > before) { sig = S->v[before].sig; return true; }
        if (WIFSIGNALED(st) || WEXITSTATUS(st) == 71) { sig = "crash"; return true; }
        return false;
    };
    if (!replay_s.empty()) {
        std::vector<uint16_t> t;
        FILE *f = fopen(replay_s.c_str(), "r");
        if (!f) { dprintf(100, "cannot open %s\n", replay_s.c_str()); return 2; }
        char line[200000];
        while (fgets(line, sizeof line, f)) if (!strncmp(line, "trail:", 6)) { char *p = line + 6, *e; for (;;) { long v = strtol(p, &e, 10); if (e == p) break; t.push_back(v); p = e; } }
        fclose(f);
        std::string sig;
        if (run_replay(t, sig)) { dprintf(101, "reproduced: %s: %s\n", sig.c_str(), S->v[0].msg); return 1; }
        dprintf(101, "not reproduced\n");
        return 0;
    }

    signal(SIGCHLD, SIG_DFL);
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    S->live = 1;
    pid_t root = fork();
    if (root == 0) run_child(*d, false);
    // reap everything (we are the subreaper); abnormal ends are detected here too
    for (;;) {
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
            int i = S->nviol.fetch_add(1);
            if (i < MAXV) { Viol &v = S->v[i]; snprintf(v.sig, sizeof v.sig, "abnormal"); snprintf(v.msg, sizeof v.msg, "exploration process %d ended abnormally, status %x", p, st); v.ntrail = -1; v.state = 1; }
            S->live--;
            S->tokens++;
        }
    }
    double wall = (wall_ms() - t0) / 1000.0;
    // confirm violations by replaying them
    int nv = std::min<int>(S->nviol, MAXV);
    std::vector<Viol*> viols; std::vector<int> confirmed;
    Viol *copy = static_cast<Viol*>(calloc(MAXV, sizeof(Viol)));
    std::vector<std::string> seen;
    long ex = S->executions, ch = S->choices, fo = S->forks, ops = S->ops, pr = S->pruned, stt = S->states, stopd = S->stopped;
    memcpy(static_cast<void*>(copy), S->v, sizeof(Viol) * MAXV);
    for (int i = 0; i < nv; i++) {
        bool dup = false; for (auto &s : seen) if (s == copy[i].sig) dup = true;
        if (dup) continue;
        seen.push_back(copy[i].sig);
        viols.push_back(&copy[i]);
        int ok = -1;
        if (copy[i].ntrail >= 0) {
            std::vector<uint16_t> t(copy[i].trail, copy[i].trail + copy[i].ntrail);
            std::string sig;
            int null = open("/dev/null", O_WRONLY); int save = fcntl(100, F_DUPFD, 102); dup2(null, 100);
            ok = run_replay(t, sig) && sig == copy[i].sig;
            dup2(save, 100); close(save); close(null);
        }
        confirmed.push_back(ok);
    }
    FILE *o = out.empty() ? fdopen(101, "w") : fopen(out.c_str(), "w");
    fprintf(o, "{\"check\":\"%s\",\"thorough\":%s,\"executions\":%ld,\"choice_points\":%ld,\"forks\":%ld,\"ops\":%ld,\"pruned\":%ld,\"states\":%ld,\"stopped\":%ld,\"wall_s\":%.2f,\"rule\":\"%s\",",
            d->id, opt_thorough ? "true" : "false", ex, ch, fo, ops, pr, stt, stopd, wall, jesc(d->rule).c_str());
    fprintf(o, "\"counters\":{");
    for (int i = 0; i < S->ncounters && i < NCOUNT; i++) fprintf(o, "%s\"%s\":%ld", i ? "," : "", jesc(S->counters[i].name).c_str(), S->counters[i].n.load());
    fprintf(o, "},\"samples\":[");
    for (int i = 0; i < std::min<int>(S->nsamples, NSAMPLE); i++) fprintf(o, "%s\"%s\"", i ? "," : "", jesc(S->samples[i]).c_str());
    fprintf(o, "],\"violations\":[");
    for (size_t i = 0; i < viols.size(); i++) {
        fprintf(o, "%s{\"sig\":\"%s\",\"confirmed\":%d,\"msg\":\"%s\",\"history\":\"%s\",\"trail\":\"", i ? "," : "", jesc(viols[i]->sig).c_str(), confirmed[i], jesc(viols[i]->msg).c_str(), jesc(viols[i]->hist).c_str());
        for (int k = 0; k < viols[i]->ntrail; k++) fprintf(o, "%d ", viols[i]->trail[k]);
        fprintf(o, "\"}");
    }
    fprintf(o, "]}\n");
    fclose(o);
    return viols.empty() ? 0 : 1;
}
}
