#include "sim.h"
#include "race.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <ctime>
#include <set>
#include <algorithm>
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <glob.h>
#include <netinet/tcp.h>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#include <sanitizer/common_interface_defs.h>
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#include <sanitizer/common_interface_defs.h>
#endif
#endif

#define REAL(ret, name, args) static ret (*r)args = nullptr; if (!r) r = reinterpret_cast<ret(*)args>(dlsym(RTLD_NEXT, name))

namespace sim {

bool verbose = false;
static std::function<void(const std::string&)> stop_handler;
void set_stop_handler(std::function<void(const std::string&)> f) { stop_handler = std::move(f); }
[[noreturn]] static void stop(const std::string &why)
{
    if (stop_handler) stop_handler(why);
    fprintf(stderr, "sim stop: %s\n", why.c_str());
    _exit(70);
}

// ---------------------------------------------------------------- thread local storage
struct TlsRange { size_t off; size_t len; };   // offset from TLS block start
static size_t tls_memsz;
static char *tls_base;                          // start of the exe's TLS block of the (only) OS thread
static std::vector<TlsRange> tls_ranges;
static size_t tls_total = 0;
static std::string tls_init;                    // initial contents of the ranges, concatenated

static int phdr_cb(struct dl_phdr_info *info, size_t, void *data)
{
    if (info->dlpi_name && info->dlpi_name[0]) return 0; // exe only
    for (int i = 0; i < info->dlpi_phnum; i++)
        if (info->dlpi_phdr[i].p_type == PT_TLS) {
            auto *out = static_cast<std::pair<dl_phdr_info, ElfW(Phdr)>*>(data);
            out->first = *info;
            out->second = info->dlpi_phdr[i];
        }
    return 1;
}

static void init_tls()
{
    std::pair<dl_phdr_info, ElfW(Phdr)> d{};
    dl_iterate_phdr(phdr_cb, &d);
    const ElfW(Phdr) &ph = d.second;
    if (ph.p_type != PT_TLS) return;
    char *fs;
    asm("mov %%fs:0,%0" : "=r"(fs));
    size_t memsz = ph.p_memsz, align = ph.p_align ? ph.p_align : 1;
    // variant II: block ends at fs, aligned so that (start % align) == (p_vaddr % align)
    size_t off = (memsz + align - 1) & ~(align - 1);
    size_t bias = (ph.p_vaddr & (align - 1));
    if (bias) off = ((memsz + bias + align - 1) & ~(align - 1)) - bias;
    tls_base = fs - off; tls_memsz = memsz;
    // symbols
    int fd = ::open("/proc/self/exe", O_RDONLY);
    off_t sz = lseek(fd, 0, SEEK_END);
    char *m = static_cast<char*>(mmap(nullptr, sz, PROT_READ, MAP_PRIVATE, fd, 0));
    syscall(SYS_close, fd);
    if (m == MAP_FAILED) stop("cannot map own exe");
    auto *eh = reinterpret_cast<Elf64_Ehdr*>(m);
    auto *sh = reinterpret_cast<Elf64_Shdr*>(m + eh->e_shoff);
    std::vector<TlsRange> v;
    bool sym = false;
    for (int i = 0; i < eh->e_shnum; i++) {
        if (sh[i].sh_type != SHT_SYMTAB) continue;
        sym = true;
        auto *st = reinterpret_cast<Elf64_Sym*>(m + sh[i].sh_offset);
        size_t n = sh[i].sh_size / sizeof(Elf64_Sym);
        for (size_t k = 0; k < n; k++)
            if (ELF64_ST_TYPE(st[k].st_info) == STT_TLS && st[k].st_shndx != SHN_UNDEF && st[k].st_size > 0 && st[k].st_size <= 8192)
                v.push_back({static_cast<size_t>(st[k].st_value), static_cast<size_t>(st[k].st_size)});
    }
    if (!sym) stop("own exe has no symbol table");
    std::sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.off < b.off; });
    for (auto &r : v) {
        if (!tls_ranges.empty() && r.off <= tls_ranges.back().off + tls_ranges.back().len) {
            size_t e = std::max(tls_ranges.back().off + tls_ranges.back().len, r.off + r.len);
            tls_ranges.back().len = e - tls_ranges.back().off;
        } else tls_ranges.push_back(r);
    }
    const char *img = reinterpret_cast<const char*>(d.first.dlpi_addr + ph.p_vaddr);
    for (auto &r : tls_ranges) {
        for (size_t i = 0; i < r.len; i++)
            tls_init.push_back(r.off + i < ph.p_filesz ? img[r.off + i] : 0);
        tls_total += r.len;
    }
    munmap(m, sz);
}

// ---------------------------------------------------------------- coroutines
struct Epoll; struct Mut; struct Rw;
enum class W { None, Mutex, Rd, Wr, Sem, Epoll, Sleep, Join, Poll, Event, Forever };
struct Wait { W kind = W::None; void *p = nullptr; int a = 0; uint64_t deadline = UINT64_MAX; struct pollfd *pfd = nullptr; int n = 0; };
struct EhGlobals { void *a; unsigned b; };
struct Co {
    int id = 0;
    std::string name;
    void *sp = nullptr;
    char *stack = nullptr; size_t stack_size = 0;
    std::string tls;
    EhGlobals eh{};
    int saved_errno = 0;
    void *(*fn)(void*) = nullptr; void *arg = nullptr; void *ret = nullptr;
    bool done = false, started = false, detached = false, excluded = false, exited = false;
    int exit_code = 0;
    Wait wait;
    bool timed_out = false;
    bool yielded = false;
    std::vector<std::pair<void(*)(void*), void*>> dtors;
    void *fake = nullptr;
    bool abandoned = false;
    bool give_way = false; // it tried to get a lock that another thread has: let others run before it looks for work again
    uint64_t epoll_spins = 0; // how often it looked for work without ever waiting
};
static std::vector<Co*> cos;          // index = id
static Co *cur = nullptr;             // running coroutine, null = driver
static void *driver_sp;
static std::string driver_tls;
static EhGlobals driver_eh; static int driver_errno;
static uint64_t n_switches, n_steps;
uint64_t switches() { return n_switches; }
uint64_t step_count() { return n_steps; }
#ifdef MC_ASAN
static void *driver_fake; static const void *driver_stack_bottom; static size_t driver_stack_size;
#endif

extern "C" void mc_swap(void **save_sp, void *new_sp);
asm(R"(
.text
.globl mc_swap
.type mc_swap,@function
mc_swap:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8,%rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_swap,.-mc_swap
)");

static void tls_save(std::string &s)
{
    s.resize(tls_total);
    char *p = s.data();
    for (auto &r : tls_ranges) { memcpy(p, tls_base + r.off, r.len); p += r.len; }
}
static void tls_load(const std::string &s)
{
    const char *p = s.data();
    for (auto &r : tls_ranges) { memcpy(tls_base + r.off, p, r.len); p += r.len; }
}
static EhGlobals *eh_globals() { return reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals()); }

static void switch_to_driver()
{
    Co *me = cur;
    me->saved_errno = errno;
#ifdef MC_ASAN
    __sanitizer_start_switch_fiber(me->done ? nullptr : &me->fake, driver_stack_bottom, driver_stack_size);
#endif
    mc_swap(&me->sp, driver_sp);
#ifdef MC_ASAN
    __sanitizer_finish_switch_fiber(me->fake, nullptr, nullptr);
#endif
    errno = me->saved_errno;
}

static void switch_to_co(Co *c)
{
    n_switches++;
    tls_save(driver_tls); driver_eh = *eh_globals(); driver_errno = errno;
    tls_load(c->tls); *eh_globals() = c->eh;
    cur = c;
    c->started = true;
#ifdef MC_ASAN
    __sanitizer_start_switch_fiber(&driver_fake, c->stack, c->stack_size);
#endif
    mc_swap(&driver_sp, c->sp);
#ifdef MC_ASAN
    __sanitizer_finish_switch_fiber(driver_fake, nullptr, nullptr);
#endif
    cur = nullptr;
    tls_save(c->tls); c->eh = *eh_globals();
    tls_load(driver_tls); *eh_globals() = driver_eh; errno = driver_errno;
}

static void co_finish()
{
    Co *me = cur;
    while (!me->dtors.empty()) {
        auto d = me->dtors.back(); me->dtors.pop_back();
        d.first(d.second);
    }
    me->done = true;
    switch_to_driver();
    abort();
}

extern "C" void mc_entry()
{
    Co *me = cur;
#ifdef MC_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &driver_stack_bottom, &driver_stack_size);
#endif
    me->ret = me->fn(me->arg);
    co_finish();
}
asm(R"(
.text
.globl mc_tramp
.type mc_tramp,@function
mc_tramp:
    xorl %ebp,%ebp
    call mc_entry
    ud2
.size mc_tramp,.-mc_tramp
)");
extern "C" void mc_tramp();

static Co *co_create(void *(*fn)(void*), void *arg)
{
    Co *c = new Co;
    c->id = cos.size();
    c->fn = fn; c->arg = arg;
    c->stack_size = 1024 * 1024;
    c->stack = static_cast<char*>(mmap(nullptr, c->stack_size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    mprotect(c->stack, 4096, PROT_NONE);
    c->stack += 4096;
    c->tls = tls_init;
    char *top = c->stack + c->stack_size;
    auto *sp = reinterpret_cast<uint64_t*>(top);
    *--sp = 0; *--sp = 0;                          // alignment
    *--sp = reinterpret_cast<uint64_t>(&mc_tramp);// return address
    for (int i = 0; i < 6; i++) *--sp = 0;        // rbp rbx r12-15
    *--sp = 0;
    uint32_t mxcsr; uint16_t fcw;
    asm volatile("stmxcsr %0" : "=m"(mxcsr)); asm volatile("fnstcw %0" : "=m"(fcw));
    memcpy(sp, &mxcsr, 4); memcpy(reinterpret_cast<char*>(sp) + 4, &fcw, 2);
    c->sp = sp;
    c->name = "t" + std::to_string(c->id);
    cos.push_back(c);
    return c;
}

// ---------------------------------------------------------------- clock
static uint64_t mono_ns = 1000ull * 1000000000ull;
static int64_t real_off_ns = 1700000000ll * 1000000000ll;
uint64_t now_ns() { return mono_ns; }
int current_id() { return cur ? cur->id : -1; }
std::string thread_name(int id) { return id >= 0 && id < (int)cos.size() ? cos[id]->name : "?"; }
bool is_tls(const void *p) { auto *c = static_cast<const char*>(p); return c >= tls_base && c < tls_base + tls_memsz; }
uint64_t clock_step_ns = 50;
int64_t realtime_s() { return (real_off_ns + (int64_t)mono_ns) / 1000000000ll; }
static int64_t file_time() { return real_off_ns + (int64_t)mono_ns; }
void jump_realtime(int64_t d) { real_off_ns += d * 1000000000ll; }
static uint64_t rnd_state = 88172645463325252ull;
static uint64_t rnd() { rnd_state ^= rnd_state << 13; rnd_state ^= rnd_state >> 7; rnd_state ^= rnd_state << 17; return rnd_state; }

// ---------------------------------------------------------------- fds
enum class T { Free, Listen, Conn, Event, Epoll, File, Dir, Sock };
struct Inode;
struct Fd {
    T type = T::Free;
    int port = 0; std::string path; std::deque<ConnP> backlog; int family = 0; bool bound = false;
    ConnP conn;
    uint64_t counter = 0;
    std::map<int, epoll_event> *ep = nullptr;
    std::shared_ptr<Inode> ino; size_t off = 0; int flags = 0;
    uint64_t ready_seq = 0;
    bool nodelay = false;
};
static std::vector<Fd> fds;
static uint64_t seq_counter = 1;
static std::vector<ConnP> conns_all, out_conns;
static int n_conns = 0;
static std::set<int> busy;
std::vector<ConnP> &outgoing() { return out_conns; }
static NetPolicy netpol;
NetPolicy &net() { return netpol; }

static bool fake(int fd) { return fd >= FD_BASE; }
static Fd *F(int fd) { int i = fd - FD_BASE; if (i < 0 || i >= (int)fds.size() || fds[i].type == T::Free) return nullptr; return &fds[i]; }
static int alloc_fd(T t)
{
    size_t i = 0;
    while (i < fds.size() && fds[i].type != T::Free) i++;
    if (i == fds.size()) fds.emplace_back();
    fds[i] = Fd();
    fds[i].type = t;
    return FD_BASE + i;
}
int open_fake_fds() { int n = 0; for (auto &f : fds) n += f.type != T::Free; return n; }

static uint32_t conn_events(const Conn &c)
{
    uint32_t e = 0;
    if (c.outgoing && c.connect_state == 0) return 0;
    if (c.outgoing && c.connect_state == 2) return EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP;
    if (c.reset) return EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP;
    if (!c.in.empty()) e |= EPOLLIN;
    if (c.fin) e |= EPOLLIN | EPOLLRDHUP;
    if (c.out_space > 0) e |= EPOLLOUT;
    return e;
}
static uint32_t fd_events(int fd)
{
    Fd *f = F(fd);
    if (!f) return 0;
    switch (f->type) {
    case T::Listen: return f->backlog.empty() ? 0u : (uint32_t)EPOLLIN;
    case T::Conn: return conn_events(*f->conn);
    case T::Event: return (f->counter ? (uint32_t)EPOLLIN : 0u) | (uint32_t)EPOLLOUT;
    case T::File: return EPOLLIN | EPOLLOUT;
    default: return 0;
    }
}
static bool epoll_any(Fd *e)
{
    for (auto &p : *e->ep)
        if (fd_events(p.first) & (p.second.events | EPOLLERR | EPOLLHUP)) return true;
    return false;
}

// ---------------------------------------------------------------- locks
struct Mut { int owner; unsigned count; };                 // overlays pthread_mutex_t
struct Rw { int writer; int readers; };                    // overlays pthread_rwlock_t
static inline Mut *M(pthread_mutex_t *m) { return reinterpret_cast<Mut*>(m); }
static inline int mkind(pthread_mutex_t *m) { return *reinterpret_cast<int*>(reinterpret_cast<char*>(m) + 16) & 3; }
static inline Rw *R(pthread_rwlock_t *m) { return reinterpret_cast<Rw*>(m); }
static inline int me() { return cur ? cur->id + 1 : 0x7fffff; }

// ---------------------------------------------------------------- scheduler
static Sched schd;
Sched &sched() { return schd; }
static std::function<void()> on_step;
void set_on_step(std::function<void()> f) { on_step = std::move(f); }
void pass(uint64_t ms) { mono_ns += ms * 1000000ull; }
std::function<int()> rand_hook;
static std::string sched_log;
std::string schedule_trace() { return sched_log; }
static bool crashed_flag = false;
bool crashed() { return crashed_flag; }
void clear_crashed() { crashed_flag = false; }

static bool ready(Co *c)
{
    if (c->done || c->abandoned) return false;
    const Wait &w = c->wait;
    c->timed_out = false;
    bool ok = false;
    switch (w.kind) {
    case W::None: return true;
    case W::Mutex: ok = static_cast<Mut*>(w.p)->owner == 0; break;
    case W::Rd: ok = static_cast<Rw*>(w.p)->writer == 0; break;
    case W::Wr: ok = static_cast<Rw*>(w.p)->writer == 0 && static_cast<Rw*>(w.p)->readers == 0; break;
    case W::Sem: ok = *static_cast<int*>(w.p) > 0; break;
    case W::Epoll: { Fd *f = F(w.a); ok = !f || epoll_any(f); break; }
    case W::Join: ok = cos[w.a]->done || cos[w.a]->abandoned; break;
    case W::Event: { Fd *f = F(w.a); ok = !f || f->counter > 0; break; }
    case W::Poll:
        for (int i = 0; i < w.n && !ok; i++)
            if (w.pfd[i].fd >= 0 && (fd_events(w.pfd[i].fd) & (w.pfd[i].events | POLLERR | POLLHUP))) ok = true;
        break;
    case W::Sleep: break;
    case W::Forever: return false;
    }
    if (ok) return true;
    if (w.deadline <= mono_ns) { c->timed_out = true; return true; }
    return false;
}

// Scheduling point in coroutine context: other threads may run here.
static void yield_point(const char *what)
{
    n_steps++;
    if (!cur || !schd.on || cur->excluded || schd.budget <= 0) return;
    (void)what;
    cur->yielded = true;
    cur->wait = Wait();
    switch_to_driver();
    cur->yielded = false;
}

static void block(Wait w)
{
    if (!cur) {
        stop("driver context would block (kind " + std::to_string((int)w.kind) + ")");
    }
    cur->wait = w;
    cur->epoll_spins = 0; cur->give_way = false;
    switch_to_driver();
    cur->wait = Wait();
}

static const char *wname(W k)
{
    switch (k) { case W::None: return "running"; case W::Mutex: return "mutex"; case W::Rd: return "rdlock"; case W::Wr: return "wrlock"; case W::Sem: return "sem";
    case W::Epoll: return "epoll"; case W::Sleep: return "sleep"; case W::Join: return "join"; case W::Poll: return "poll"; case W::Event: return "eventfd"; default: return "forever"; }
}
std::string describe_threads()
{
    std::string s;
    for (Co *c : cos) if (!c->done && !c->abandoned) s += c->name + ":" + wname(c->wait.kind) + " ";
    return s;
}
bool deadlocked(std::string &why)
{
    for (Co *c : cos) {
        if (c->done || c->abandoned) continue;
        if (c->wait.kind == W::Mutex || c->wait.kind == W::Rd || c->wait.kind == W::Wr) { why = describe_threads(); return true; }
    }
    return false;
}

static size_t last_run = 0;
RunResult settle()
{
    if (cur) stop("settle called from coroutine");
    Co *preempted = nullptr;
    uint64_t steps = 0;
    std::vector<Co*> rdy;
    while (!crashed_flag) {
        if (++steps > 3000000) stop("livelock: threads keep running without end: " + describe_threads());
        Co *next = nullptr;
        if (on_step) on_step();
        if (preempted && preempted->give_way) { preempted->give_way = false; last_run = preempted->id; preempted = nullptr; }
        if (schd.on && schd.budget > 0) {
            rdy.clear();
            size_t n = cos.size();
            if (preempted && ready(preempted)) rdy.push_back(preempted);
            for (size_t k = 1; k <= n; k++) {
                Co *c = cos[(last_run + k) % n];
                if (c == preempted || !ready(c)) continue;
                if (c->excluded) { continue; }
                rdy.push_back(c);
            }
            if (rdy.empty()) {
                for (Co *c : cos) if (c->excluded && ready(c)) { rdy.push_back(c); break; }
            }
            if (rdy.empty()) break;
            int k = 0;
            if (rdy.size() > 1) {
                schd.points++;
                if (schd.points > schd.max_points) schd.budget = 0;
                else {
                    k = schd.choose(rdy.size());
                    if (k) { schd.budget--; schd.deviations++; sched_log += rdy[0]->name + "@" + std::to_string(schd.points) + "->" + rdy[k]->name + " "; }
                }
            }
            next = rdy[k];
        } else {
            if (preempted && ready(preempted)) next = preempted;
            size_t n = cos.size();
            for (size_t k = 1; !next && k <= n; k++) {
                Co *c = cos[(last_run + k) % n];
                if (ready(c)) next = c;
            }
            if (!next) break;
        }
        // ready() computed timed_out for candidates; recompute for the chosen one
        ready(next);
        last_run = next->id;
        switch_to_co(next);
        preempted = next->yielded ? next : nullptr;
    }
    return crashed_flag ? RunResult::Crashed : RunResult::Idle;
}

void advance(uint64_t ms, uint64_t step_ms)
{
    settle();
    uint64_t target = mono_ns + ms * 1000000ull;
    while (!crashed_flag) {
        uint64_t best = UINT64_MAX;
        for (Co *c : cos)
            if (!c->done && !c->abandoned && c->wait.deadline < best && c->wait.kind != W::None) best = c->wait.deadline;
        if (step_ms) best = std::max<uint64_t>(best, mono_ns + step_ms * 1000000ull);
        if (best > target) break;
        if (best > mono_ns) mono_ns = best;
        settle();
    }
    if (!crashed_flag && mono_ns < target) { mono_ns = target; settle(); }
}

// ---------------------------------------------------------------- files
struct PendingWrite { size_t off; std::string data; bool trunc; size_t newlen; };
struct Inode { std::string data; std::string durable; std::vector<PendingWrite> pend; int64_t mtime = 0; mode_t mode = S_IFREG | 0600; int id = 0; };
struct DirOp { int kind; std::string a, b; std::shared_ptr<Inode> ino; }; // 0 link a, 1 unlink a, 2 rename a->b
static std::map<std::string, std::shared_ptr<Inode>> names, names_durable;
static std::set<std::string> dirs;
static std::vector<DirOp> dirops;
static std::function<int(const fs::Op&)> fshook;
static uint64_t n_fsops; static int n_inodes;
static bool inmc(const char *p) { return p && strncmp(p, "/mcfs/", 6) == 0; }
static bool inmc_or_root(const char *p) { return p && (strncmp(p, "/mcfs/", 6) == 0 || strcmp(p, "/mcfs") == 0); }
static std::string norm(const char *p) { std::string s(p), r; for (char c : s) if (!(c == '/' && !r.empty() && r.back() == '/')) r += c; while (r.size() > 1 && r.back() == '/') r.pop_back(); return r; }

static void do_crash()
{
    crashed_flag = true;
    if (!cur) return;
    cur->wait.kind = W::Forever;
    cur->abandoned = true;
    switch_to_driver();
    abort();
}
static int fsop(const char *kind, const std::string &path, const std::string &path2 = "", size_t off = 0, size_t len = 0)
{
    n_fsops++;
    if (!fshook) return 0;
    fs::Op op; op.kind = kind; op.path = path; op.path2 = path2; op.off = off; op.len = len;
    int r = fshook(op);
    if (r == -1) do_crash();
    return r;
}

namespace fs {
void put(const std::string &path, const std::string &data, int64_t mtime)
{
    auto ino = std::make_shared<Inode>();
    ino->id = n_inodes++;
    ino->data = ino->durable = data;
    ino->mtime = mtime >= 0 ? mtime * 1000000000ll : file_time();
    names[path] = ino; names_durable[path] = ino;
}
bool get(const std::string &path, std::string &data) { auto it = names.find(path); if (it == names.end()) return false; data = it->second->data; return true; }
bool exists(const std::string &path) { return names.count(path) || dirs.count(path); }
void remove(const std::string &path) { names.erase(path); names_durable.erase(path); }
void mkdir(const std::string &path) { dirs.insert(path); }
std::vector<std::string> list(const std::string &dir)
{
    std::vector<std::string> r;
    for (auto &p : names) if (p.first.compare(0, dir.size(), dir) == 0) r.push_back(p.first);
    return r;
}
void set_hook(std::function<int(const Op &)> h) { fshook = std::move(h); }
uint64_t ops() { return n_fsops; }

static std::vector<std::shared_ptr<Inode>> dirty_inodes()
{
    std::vector<std::shared_ptr<Inode>> v; std::set<Inode*> seen;
    auto add = [&](const std::shared_ptr<Inode> &i) { if (i && !i->pend.empty() && seen.insert(i.get()).second) v.push_back(i); };
    for (auto &p : names) add(p.second);
    for (auto &p : names_durable) add(p.second);
    for (auto &d : dirops) add(d.ino);
    return v;
}
Pending pending()
{
    Pending p;
    for (auto &i : dirty_inodes()) { p.inodes.push_back(std::to_string(i->id)); p.npending.push_back(i->pend.size()); }
    p.ndirops = dirops.size();
    return p;
}
void crash_apply(const std::vector<size_t> &keep, bool torn, size_t keep_dirops)
{
    auto v = dirty_inodes();
    for (size_t k = 0; k < v.size(); k++) {
        Inode &i = *v[k];
        size_t n = k < keep.size() ? keep[k] : 0;
        std::string d = i.durable;
        for (size_t w = 0; w < i.pend.size() && w < n; w++) {
            PendingWrite &pw = i.pend[w];
            if (pw.trunc) { d.resize(pw.newlen); continue; }
            std::string data = pw.data;
            if (torn && w + 1 == n) data = data.substr(0, data.size() / 2);
            if (d.size() < pw.off + data.size()) d.resize(pw.off + data.size());
            d.replace(pw.off, data.size(), data);
        }
        i.data = i.durable = d; i.pend.clear();
    }
    auto nm = names_durable;
    for (size_t k = 0; k < dirops.size() && k < keep_dirops; k++) {
        DirOp &o = dirops[k];
        if (o.kind == 0) nm[o.a] = o.ino;
        else if (o.kind == 1) nm.erase(o.a);
        else { auto it = nm.find(o.a); if (it != nm.end()) { auto ino = it->second; nm.erase(o.a); nm[o.b] = ino; } }
    }
    names = names_durable = nm;
    dirops.clear();
}
void sync_all()
{
    for (auto &p : names) { p.second->durable = p.second->data; p.second->pend.clear(); }
    names_durable = names; dirops.clear();
}
}

static std::shared_ptr<Inode> f_create(const std::string &p)
{
    auto ino = std::make_shared<Inode>();
    ino->id = n_inodes++;
    ino->mtime = file_time();
    names[p] = ino;
    dirops.push_back({0, p, "", ino});
    return ino;
}
static std::string dirof(const std::string &p) { auto i = p.rfind('/'); return i == 0 ? "/" : p.substr(0, i); }

static int fs_open(const char *path, int flags, mode_t)
{
    std::string p = norm(path);
    if (dirs.count(p)) {
        if ((flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
        int fd = alloc_fd(T::Dir); F(fd)->path = p; return fd;
    }
    auto it = names.find(p);
    std::shared_ptr<Inode> ino;
    if (it == names.end()) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        if (!dirs.count(dirof(p))) { errno = ENOENT; return -1; }
        int r = fsop("create", p);
        if (r > 0) { errno = r; return -1; }
        ino = f_create(p);
        if (r == -2) do_crash();
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        ino = it->second;
        if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY && !ino->data.empty()) {
            int r = fsop("truncate", p);
            if (r > 0) { errno = r; return -1; }
            ino->data.clear(); ino->pend.push_back({0, "", true, 0}); ino->mtime = file_time();
            if (r == -2) do_crash();
        }
    }
    int fd = alloc_fd(T::File);
    F(fd)->ino = ino; F(fd)->flags = flags; F(fd)->path = p;
    return fd;
}
static ssize_t fs_write(int fd, const void *buf, size_t n)
{
    Fd *f = F(fd);
    if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (f->flags & O_APPEND) f->off = f->ino->data.size();
    int r = fsop("write", f->path, "", f->off, n);
    f = F(fd);
    if (r > 0) { errno = r; return -1; }
    size_t m = n;
    if (r <= -1000) { m = std::min<size_t>(n, -1000 - r); if (!m) { errno = ENOSPC; return -1; } }
    std::string d(static_cast<const char*>(buf), m);
    auto &data = f->ino->data;
    if (data.size() < f->off + m) data.resize(f->off + m);
    data.replace(f->off, m, d);
    f->ino->pend.push_back({f->off, d, false, 0});
    f->ino->mtime = file_time();
    f->off += m;
    if (r == -2) do_crash();
    return m;
}
static ssize_t fs_read(int fd, void *buf, size_t n)
{
    Fd *f = F(fd);
    if (fshook) { int r = fsop("read", f->path, "", f->off, n); f = F(fd); if (r > 0) { errno = r; return -1; } }
    auto &data = f->ino->data;
    if (f->off >= data.size()) return 0;
    size_t m = std::min(n, data.size() - f->off);
    memcpy(buf, data.data() + f->off, m);
    f->off += m;
    return m;
}
static int64_t fs_seek(int fd, int64_t o, int wh)
{
    Fd *f = F(fd);
    int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)f->off : (int64_t)f->ino->data.size();
    if (b + o < 0) { errno = EINVAL; return -1; }
    f->off = b + o;
    return f->off;
}
static int fs_fsync(int fd)
{
    Fd *f = F(fd);
    int r = fsop("fsync", f->path);
    f = F(fd);
    if (r > 0) { errno = r; return -1; }
    if (f->type == T::File) { f->ino->durable = f->ino->data; f->ino->pend.clear(); }
    else { // directory: its operations become durable
        names_durable = names; // a single storage directory is assumed
        dirops.clear();
    }
    if (r == -2) do_crash();
    return 0;
}
static int fs_stat(const char *path, struct stat *st)
{
    std::string p = norm(path);
    memset(st, 0, sizeof *st);
    if (dirs.count(p)) { st->st_mode = S_IFDIR | 0755; st->st_nlink = 2; return 0; }
    auto it = names.find(p);
    if (it == names.end()) { errno = ENOENT; return -1; }
    st->st_mode = it->second->mode; st->st_size = it->second->data.size(); st->st_nlink = 1; st->st_blksize = 1024;
    st->st_mtim.tv_sec = it->second->mtime / 1000000000ll; st->st_mtim.tv_nsec = it->second->mtime % 1000000000ll; st->st_ctim = st->st_atim = st->st_mtim; st->st_ino = 1000 + it->second->id;
    return 0;
}
struct Cookie { int fd; };
static ssize_t ck_read(void *c, char *b, size_t n) { return fs_read(static_cast<Cookie*>(c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r = fs_write(static_cast<Cookie*>(c)->fd, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void *c, off64_t *o, int wh) { int64_t r = fs_seek(static_cast<Cookie*>(c)->fd, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int close_fd(int fd);
static int ck_close(void *c) { int r = close_fd(static_cast<Cookie*>(c)->fd); delete static_cast<Cookie*>(c); return r; }
static FILE *mk_file(int fd, const char *mode)
{
    cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie(new Cookie{fd}, mode, io); race::fresh(f); // libc's own allocation
    f->_fileno = fd;
    setvbuf(f, nullptr, _IOFBF, 4096);
    return f;
}
static FILE *fs_fopen(const char *path, const char *mode)
{
    int flags = 0;
    bool plus = strchr(mode, '+');
    switch (mode[0]) {
    case 'r': flags = plus ? O_RDWR : O_RDONLY; break;
    case 'w': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    default: flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    }
    int fd = fs_open(path, flags, 0600);
    if (fd < 0) return nullptr;
    return mk_file(fd, mode);
}

// ---------------------------------------------------------------- sockets
static int sock_family_port(const sockaddr *a, std::string &path)
{
    if (a->sa_family == AF_INET) return ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port);
    if (a->sa_family == AF_INET6) return ntohs(reinterpret_cast<const sockaddr_in6*>(a)->sin6_port);
    if (a->sa_family == AF_UNIX) { path = reinterpret_cast<const sockaddr_un*>(a)->sun_path; return -1; }
    return 0;
}
static int find_listener(int port, int family)
{
    for (size_t i = 0; i < fds.size(); i++)
        if (fds[i].type == T::Listen && fds[i].port == port && (family == 0 || fds[i].family == family)) return FD_BASE + i;
    return -1;
}
bool listening(int port) { return find_listener(port, 0) >= 0; }
void busy_port(int p) { busy.insert(p); }
std::vector<int> listening_ports() { std::vector<int> v; for (auto &f : fds) if (f.type == T::Listen) v.push_back(f.port); return v; }
static ConnP mk_conn() { auto c = std::make_shared<Conn>(); c->id = n_conns++; conns_all.push_back(c); return c; }
ConnP connect_in(int port, const char *ip, uint16_t peerport)
{
    bool v6 = ip && strchr(ip, ':');
    int l = find_listener(port, v6 ? AF_INET6 : AF_INET);
    if (l < 0 && !ip) l = find_listener(port, 0);
    if (l < 0) return nullptr;
    auto c = mk_conn();
    c->port = port;
    if (v6) {
        auto *a = reinterpret_cast<sockaddr_in6*>(&c->peer);
        a->sin6_family = AF_INET6; inet_pton(AF_INET6, ip, &a->sin6_addr); a->sin6_port = htons(peerport ? peerport : 40000 + c->id);
        c->peerlen = sizeof *a;
    } else {
        auto *a = reinterpret_cast<sockaddr_in*>(&c->peer);
        a->sin_family = AF_INET; inet_pton(AF_INET, ip ? ip : "127.0.0.1", &a->sin_addr); a->sin_port = htons(peerport ? peerport : 40000 + c->id);
        c->peerlen = sizeof *a;
    }
    F(l)->backlog.push_back(c);
    F(l)->ready_seq = seq_counter++;
    return c;
}
ConnP connect_unix(const std::string &path)
{
    for (size_t i = 0; i < fds.size(); i++)
        if (fds[i].type == T::Listen && fds[i].path == path) {
            auto c = mk_conn();
            c->peer.ss_family = AF_UNIX; c->peerlen = sizeof(sa_family_t);
            fds[i].backlog.push_back(c);
            return c;
        }
    return nullptr;
}
void feed(const ConnP &c, const std::string &b)
{
    if (c->srv_closed || c->fin || c->reset || b.empty()) return;
    if (c->in.empty()) c->ready_seq = seq_counter++;
    c->in += b;
    c->total_in += b.size();
}
void close_peer(const ConnP &c, bool rst)
{
    if (rst) { c->reset = true; c->in.clear(); } else c->fin = true;
    c->ready_seq = seq_counter++;
}
std::string take(const ConnP &c) { std::string s; s.swap(c->out); return s; }

static int close_fd(int fd)
{
    Fd *f = F(fd);
    if (!f) { errno = EBADF; return -1; }
    if (f->type == T::Conn) { f->conn->srv_closed = true; f->conn->fd = -1; }
    if (f->type == T::Listen) for (auto &c : f->backlog) { c->srv_closed = true; }
    if (f->type == T::Epoll) delete f->ep;
    for (auto &g : fds) if (g.type == T::Epoll && g.ep) g.ep->erase(fd);
    *f = Fd();
    return 0;
}
static ssize_t conn_read(Fd *f, void *buf, size_t n)
{
    Conn &c = *f->conn;
    if (c.reset) { errno = ECONNRESET; return -1; }
    if (c.outgoing && c.connect_state != 1) { errno = c.connect_state == 0 ? EAGAIN : c.connect_errno; return -1; }
    if (c.in.empty()) { if (c.fin) return 0; errno = EAGAIN; return -1; }
    size_t m = std::min({n, c.in.size(), c.read_max});
    memcpy(buf, c.in.data(), m);
    c.in.erase(0, m);
    return m;
}
static ssize_t conn_write(Fd *f, const void *buf, size_t n)
{
    Conn &c = *f->conn;
    if (c.reset) { errno = EPIPE; return -1; }
    if (c.outgoing && c.connect_state != 1) { errno = c.connect_state == 0 ? EAGAIN : EPIPE; return -1; }
    if (n == 0) return 0;
    size_t m = std::min({n, c.write_max, c.out_space});
    if (m == 0) { errno = EAGAIN; return -1; }
    c.out.append(static_cast<const char*>(buf), m);
    c.total_out += m;
    if (c.out_space != SIZE_MAX) c.out_space -= m;
    return m;
}

static std::map<int, struct sigaction> handlers;
void deliver_signal(int sig)
{
    auto it = handlers.find(sig);
    if (it != handlers.end() && it->second.sa_handler && it->second.sa_handler != SIG_IGN) it->second.sa_handler(sig);
}
static std::function<int(int)> epoll_order;
void set_epoll_order(std::function<int(int n)> f) { epoll_order = std::move(f); }

// ---------------------------------------------------------------- life cycle
static bool inited = false;
void init()
{
    init_tls();
    inited = true;
    fds.reserve(4096);
}
struct MainArgs { int (*f)(int, char**); std::vector<std::string> a; std::vector<char*> p; };
static void *main_entry(void *x)
{
    auto *m = static_cast<MainArgs*>(x);
    int rc = m->f(m->p.size() - 1, m->p.data());
    return reinterpret_cast<void*>(static_cast<intptr_t>(rc));
}
int boot(const std::vector<std::string> &argv, int (*mainf)(int, char**))
{
    race::start();
    auto *m = new MainArgs{mainf, argv, {}};
    for (auto &s : m->a) m->p.push_back(s.data());
    m->p.push_back(nullptr);
    Co *c = co_create(main_entry, m);
    c->name = "main";
    return c->id;
}
bool finished(int co, int *rc)
{
    Co *c = cos[co];
    if (!c->done) return false;
    if (rc) *rc = c->exited ? c->exit_code : static_cast<int>(reinterpret_cast<intptr_t>(c->ret));
    return true;
}
void abandon_all()
{
    for (Co *c : cos) if (!c->done && c->name != "LogWriter") c->abandoned = true;
    for (size_t i = 0; i < fds.size(); i++) if (fds[i].type != T::Free) close_fd(FD_BASE + i);
    crashed_flag = false;
}
} // namespace sim

using namespace sim;

// ================================================================ interposed libc
extern "C" {

int pthread_mutex_lock(pthread_mutex_t *m)
{
    Mut *x = M(m);
    yield_point("lock");
    if (x->owner == me()) {
        if (mkind(m) == PTHREAD_MUTEX_RECURSIVE) { x->count++; return 0; }
        if (mkind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    while (x->owner != 0) { Wait w; w.kind = W::Mutex; w.p = x; block(w); }
    x->owner = me(); x->count = 1; race::acquire(m);
    if (schd.held) yield_point("locked");
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    Mut *x = M(m);
    yield_point("trylock");
    if (x->owner == me() && mkind(m) == PTHREAD_MUTEX_RECURSIVE) { x->count++; return 0; }
    if (x->owner) { if (cur) cur->give_way = true; return EBUSY; }
    x->owner = me(); x->count = 1; race::acquire(m);
    if (schd.held) yield_point("locked");
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    Mut *x = M(m);
    if (x->owner && --x->count == 0) { race::release(m); x->owner = 0; yield_point("unlock"); }
    return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
    memset(m, 0, sizeof *m);
    int kind = 0;
    if (a) pthread_mutexattr_gettype(a, &kind);
    *reinterpret_cast<int*>(reinterpret_cast<char*>(m) + 16) = kind;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *) { memset(m, 0, sizeof *m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    Rw *x = R(m);
    yield_point("rdlock");
    if (x->writer == me()) return EDEADLK;
    while (x->writer) { Wait w; w.kind = W::Rd; w.p = x; block(w); }
    x->readers++; race::acquire(m);
    if (schd.held) yield_point("rdlocked");
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m)
{
    Rw *x = R(m);
    yield_point("tryrdlock");
    if (x->writer) { if (cur) cur->give_way = true; return EBUSY; }
    x->readers++; race::acquire(m);
    if (schd.held) yield_point("rdlocked");
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    Rw *x = R(m);
    yield_point("wrlock");
    if (x->writer == me()) return EDEADLK;
    while (x->writer || x->readers) { Wait w; w.kind = W::Wr; w.p = x; block(w); }
    x->writer = me(); race::acquire(m); race::acquire(reinterpret_cast<char*>(m) + 1);
    if (schd.held) yield_point("wrlocked");
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *m)
{
    Rw *x = R(m);
    yield_point("trywrlock");
    if (x->writer || x->readers) { if (cur) cur->give_way = true; return EBUSY; }
    x->writer = me(); race::acquire(m); race::acquire(reinterpret_cast<char*>(m) + 1);
    if (schd.held) yield_point("wrlocked");
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    Rw *x = R(m);
    race::release(x->writer ? reinterpret_cast<char*>(m) : reinterpret_cast<char*>(m) + 1);
    if (x->writer) x->writer = 0; else if (x->readers > 0) x->readers--;
    yield_point("rwunlock");
    return 0;
}
// condition variables: {int seq} -- waiters poll on a generation number
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    // represented by a semaphore count in the first int; every waiter registers in the second
    int *x = reinterpret_cast<int*>(c);
    x[1]++;
    pthread_mutex_unlock(m);
    while (x[0] <= 0) { Wait w; w.kind = W::Sem; w.p = x; block(w); }
    x[0]--; x[1]--;
    return pthread_mutex_lock(m);
}
int pthread_cond_signal(pthread_cond_t *c) { int *x = reinterpret_cast<int*>(c); if (x[0] < x[1]) x[0]++; return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { int *x = reinterpret_cast<int*>(c); x[0] = x[1]; return 0; }
static int cond_until(pthread_cond_t *c, pthread_mutex_t *m, uint64_t dl)
{
    int *x = reinterpret_cast<int*>(c);
    x[1]++;
    pthread_mutex_unlock(m);
    bool to = false;
    if (x[0] <= 0) { Wait w; w.kind = W::Sem; w.p = x; w.deadline = dl; block(w); to = cur->timed_out && x[0] <= 0; }
    if (!to) x[0]--;
    x[1]--;
    pthread_mutex_lock(m);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
    return cond_until(c, m, (uint64_t)((int64_t)(t->tv_sec * 1000000000ll + t->tv_nsec) - real_off_ns));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t ck, const struct timespec *t)
{
    uint64_t v = t->tv_sec * 1000000000ull + t->tv_nsec;
    return cond_until(c, m, ck == CLOCK_MONOTONIC ? v : (uint64_t)((int64_t)v - real_off_ns));
}
int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void*), void *arg)
{
    Co *c = co_create(fn, arg); race::created(c->id);
    *t = static_cast<pthread_t>(c->id + 1);
    yield_point("create");
    return 0;
}
int pthread_join(pthread_t t, void **ret)
{
    int id = static_cast<int>(t) - 1;
    if (id < 0 || id >= (int)cos.size()) return ESRCH;
    if (!cos[id]->done && !cos[id]->abandoned) { Wait w; w.kind = W::Join; w.a = id; block(w); }
    race::joined(id);
    if (ret) *ret = cos[id]->ret;
    return 0;
}
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self(void) { return static_cast<pthread_t>(me()); }
int pthread_setname_np(pthread_t t, const char *n)
{
    int id = static_cast<int>(t) - 1;
    if (id >= 0 && id < (int)cos.size()) { cos[id]->name = n; if (cos[id]->name == "LogWriter") cos[id]->excluded = true; }
    return 0;
}
int pthread_getname_np(pthread_t t, char *b, size_t n)
{
    int id = static_cast<int>(t) - 1;
    std::string s = id >= 0 && id < (int)cos.size() ? cos[id]->name : "driver";
    snprintf(b, n, "%s", s.c_str());
    return 0;
}
int pthread_sigmask(int, const sigset_t *, sigset_t *o) { if (o) sigemptyset(o); return 0; }
int sigprocmask(int, const sigset_t *, sigset_t *o) noexcept { if (o) sigemptyset(o); return 0; }
int sigaction(int sig, const struct sigaction *sa, struct sigaction *old) noexcept
{
    if (!cur) { REAL(int, "sigaction", (int, const struct sigaction*, struct sigaction*)); return r(sig, sa, old); }
    if (old) *old = handlers[sig];
    if (sa) handlers[sig] = *sa;
    return 0;
}
int __cxa_thread_atexit(void (*d)(void*), void *obj, void *dso) noexcept
{
    (void)dso;
    if (cur) cur->dtors.push_back({d, obj});
    return 0;
}
int sem_init(sem_t *s, int, unsigned v) noexcept { *reinterpret_cast<int*>(s) = v; return 0; }
int sem_post(sem_t *s) noexcept { race::release(s); ++*reinterpret_cast<int*>(s); return 0; }
int sem_wait(sem_t *s)
{
    int *x = reinterpret_cast<int*>(s);
    while (*x <= 0) { Wait w; w.kind = W::Sem; w.p = x; block(w); }
    --*x; race::acquire(s);
    return 0;
}
int sem_close(sem_t *) noexcept { return 0; }
int sem_destroy(sem_t *) noexcept { return 0; }

int clock_gettime(clockid_t c, struct timespec *t) noexcept
{
    if (!inited) return syscall(SYS_clock_gettime, c, t);
    if (cur) mono_ns += clock_step_ns;
    int64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? real_off_ns + (int64_t)mono_ns : (int64_t)mono_ns;
    t->tv_sec = v / 1000000000ll; t->tv_nsec = v % 1000000000ll;
    return 0;
}
time_t time(time_t *t) noexcept { time_t v = inited ? (time_t)realtime_s() : 0; if (t) *t = v; return v; }
int gettimeofday(struct timeval *tv, void *) noexcept
{
    int64_t v = real_off_ns + (int64_t)mono_ns;
    tv->tv_sec = v / 1000000000ll; tv->tv_usec = v % 1000000000ll / 1000;
    return 0;
}
static void do_sleep(uint64_t ns)
{
    if (!cur) return;
    Wait w; w.kind = W::Sleep; w.deadline = mono_ns + ns; block(w);
}
int nanosleep(const struct timespec *t, struct timespec *) { do_sleep(t->tv_sec * 1000000000ull + t->tv_nsec); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *t, struct timespec *) { do_sleep(t->tv_sec * 1000000000ull + t->tv_nsec); return 0; }
int usleep(useconds_t u) { do_sleep(u * 1000ull); return 0; }
unsigned sleep(unsigned s) { do_sleep(s * 1000000000ull); return 0; }
int sched_yield(void) noexcept { yield_point("sched_yield"); return 0; }
int rand(void) noexcept { if (sim::rand_hook) return sim::rand_hook(); return static_cast<int>(rnd() & 0x7fffffff); }
ssize_t getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) static_cast<unsigned char*>(b)[i] = rnd() >> 11; return n; }
int get_nprocs(void) noexcept { return 2; }
int malloc_trim(size_t) noexcept { return 0; }
int setrlimit(__rlimit_resource_t r_, const struct rlimit *v) noexcept { if (cur) return 0; return syscall(SYS_setrlimit, (int)r_, v); }
void exit(int rc)
{
    if (!cur) { static void (*r)(int) = nullptr; if (!r) r = reinterpret_cast<void(*)(int)>(dlsym(RTLD_NEXT, "exit")); r(rc); }
    cur->exited = true; cur->exit_code = rc; cur->done = true;
    switch_to_driver();
    abort();
}

// ---- fds
int socket(int fam, int, int) noexcept { if (!cur) { errno = EPERM; return -1; } int fd = alloc_fd(T::Sock); F(fd)->family = fam; return fd; }
int setsockopt(int fd, int level, int name, const void *v, socklen_t) noexcept
{
    if (!fake(fd)) { errno = ENOTSOCK; return -1; }
    if (Fd *f = F(fd); f && level == IPPROTO_TCP && name == TCP_NODELAY) { f->nodelay = *static_cast<const int*>(v); if (f->conn) f->conn->nodelay = f->nodelay; }
    return 0;
}
int getsockopt(int fd, int level, int name, void *v, socklen_t *l) noexcept
{
    if (level == SOL_SOCKET && name == SO_ERROR && *l >= sizeof(int)) {
        int e = 0;
        Fd *f = F(fd);
        if (f && f->type == T::Conn) { if (f->conn->outgoing && f->conn->connect_state == 2) e = f->conn->connect_errno; else if (f->conn->reset) e = ECONNRESET; }
        memcpy(v, &e, sizeof e);
        return 0;
    }
    memset(v, 0, *l);
    return 0;
}
int bind(int fd, const struct sockaddr *a, socklen_t) noexcept
{
    Fd *f = F(fd);
    if (!f) { errno = EBADF; return -1; }
    std::string p;
    int port = sock_family_port(a, p);
    for (auto &g : fds) if (g.type != T::Free && &g != f && (g.type == T::Listen || g.bound) && g.family == f->family && ((port > 0 && g.port == port) || (port < 0 && g.path == p))) {
        errno = EADDRINUSE; return -1;
    }
    if (port > 0 && busy.count(port)) { errno = EADDRINUSE; return -1; }
    f->port = port; f->path = p; f->bound = true;
    return 0;
}
int listen(int fd, int) noexcept { Fd *f = F(fd); if (!f) { errno = EBADF; return -1; } f->type = T::Listen; return 0; }
int accept(int fd, struct sockaddr *a, socklen_t *l)
{
    yield_point("accept");
    Fd *f = F(fd);
    if (!f || f->type != T::Listen) { errno = EBADF; return -1; }
    if (f->backlog.empty()) { errno = EAGAIN; return -1; }
    ConnP c = f->backlog.front(); f->backlog.pop_front();
    int n = alloc_fd(T::Conn);
    F(n)->conn = c; c->nodelay = F(n)->nodelay = F(fd)->nodelay;
    c->fd = n; c->accepted = true;
    if (a && l) { socklen_t m = std::min<socklen_t>(*l, c->peerlen); memcpy(a, &c->peer, m); *l = c->peerlen; }
    return n;
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int) { return accept(fd, a, l); }
int connect(int fd, const struct sockaddr *a, socklen_t)
{
    Fd *f = F(fd);
    if (!f) { REAL(int, "connect", (int, const struct sockaddr*, socklen_t)); if (!cur) return r(fd, a, sizeof(sockaddr_un)); errno = EBADF; return -1; }
    std::string p;
    int port = sock_family_port(a, p);
    auto c = mk_conn();
    c->outgoing = true; c->port = port; c->nodelay = f->nodelay;
    char b[64] = {0};
    if (a->sa_family == AF_INET) inet_ntop(AF_INET, &reinterpret_cast<const sockaddr_in*>(a)->sin_addr, b, sizeof b);
    else if (a->sa_family == AF_INET6) inet_ntop(AF_INET6, &reinterpret_cast<const sockaddr_in6*>(a)->sin6_addr, b, sizeof b);
    c->dest = b;
    int e = netpol.connect ? netpol.connect(c->dest, port) : ECONNREFUSED;
    c->connect_state = e ? 2 : 1; c->connect_errno = e;
    if (e == EINPROGRESS) { c->connect_state = 0; c->connect_errno = 0; }
    f->type = T::Conn; f->conn = c; c->fd = fd; c->accepted = true;
    c->ready_seq = seq_counter++;
    out_conns.push_back(c);
    errno = EINPROGRESS;
    return -1;
}
int shutdown(int fd, int) noexcept { Fd *f = F(fd); if (f && f->type == T::Conn) f->conn->srv_shutdown = true; return 0; }
int fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (fake(fd)) return 0;
    long rc = syscall(SYS_fcntl, fd, cmd, arg);
    return rc;
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (fake(fd)) return 0;
    return syscall(SYS_fcntl, fd, cmd, arg);
}
int ioctl(int fd, unsigned long req, ...) noexcept
{
    va_list ap; va_start(ap, req); void *arg = va_arg(ap, void*); va_end(ap);
    if (fake(fd)) { errno = ENOTTY; return -1; }
    return syscall(SYS_ioctl, fd, req, arg);
}
int eventfd(unsigned v, int) noexcept { int fd = alloc_fd(T::Event); F(fd)->counter = v; return fd; }
int epoll_create(int) noexcept { int fd = alloc_fd(T::Epoll); F(fd)->ep = new std::map<int, epoll_event>; return fd; }
int epoll_create1(int) noexcept { return epoll_create(1); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) noexcept
{
    Fd *e = F(ep);
    race::release(reinterpret_cast<void*>(0x10000ul + ep));
    if (!e || e->type != T::Epoll || !F(fd)) { errno = EBADF; return -1; }
    auto it = e->ep->find(fd);
    if (op == EPOLL_CTL_ADD) { if (it != e->ep->end()) { errno = EEXIST; return -1; } (*e->ep)[fd] = *ev; }
    else if (it == e->ep->end()) { errno = ENOENT; return -1; }
    else if (op == EPOLL_CTL_MOD) it->second = *ev;
    else e->ep->erase(it);
    return 0;
}
static std::string describe_ready(Fd *e)
{
    std::string s;
    for (auto &p : *e->ep) if (uint32_t got = fd_events(p.first) & (p.second.events | EPOLLERR | EPOLLHUP)) s += std::to_string(p.first) + ":" + std::to_string((int)F(p.first)->type) + ":" + std::to_string(got) + " ";
    return s;
}
int epoll_wait(int ep, struct epoll_event *out, int max, int timeout)
{
    Fd *e = F(ep);
    if (!e || e->type != T::Epoll) { errno = EBADF; return -1; }
    if (!epoll_any(e)) {
        if (timeout == 0) { yield_point("epoll0"); if (!epoll_any(F(ep))) return 0; }
        else {
            Wait w; w.kind = W::Epoll; w.a = ep; w.deadline = timeout < 0 ? UINT64_MAX : mono_ns + timeout * 1000000ull;
            block(w);
        }
    } else {
        if (++cur->epoll_spins > 200000) stop("livelock: " + cur->name + " keeps running without end, woken by " + describe_ready(e));
        if (cur->epoll_spins % 50 == 0) cur->give_way = true; // fairness: what it waits for may be up to a preempted thread
        if (cur->give_way) { cur->yielded = true; cur->wait = Wait(); switch_to_driver(); cur->yielded = false; } else yield_point("epoll");
    }
    e = F(ep);
    if (!e) { errno = EBADF; return -1; }
    struct Item { uint64_t seq; epoll_event ev; };
    std::vector<Item> v;
    for (auto &p : *e->ep) {
        uint32_t got = fd_events(p.first) & (p.second.events | EPOLLERR | EPOLLHUP);
        if (!got) continue;
        Item it; it.ev = p.second; it.ev.events = got;
        Fd *f = F(p.first);
        it.seq = f->type == T::Conn ? f->conn->ready_seq : f->ready_seq;
        v.push_back(it);
    }
    std::stable_sort(v.begin(), v.end(), [](const Item &a, const Item &b) { return a.seq < b.seq; });
    race::acquire(reinterpret_cast<void*>(0x10000ul + ep));
    int n = std::min<int>(max, v.size());
    for (int i = 0; i < n; i++) out[i] = v[i].ev;
    return n;
}
int poll(struct pollfd *p, nfds_t n, int timeout)
{
    bool any_fake = false;
    for (nfds_t i = 0; i < n; i++) any_fake |= fake(p[i].fd);
    if (!any_fake && !cur) { struct timespec ts{timeout / 1000, (timeout % 1000) * 1000000l}; return syscall(SYS_ppoll, p, n, timeout < 0 ? nullptr : &ts, nullptr, 0); }
    Wait w; w.kind = W::Poll; w.pfd = p; w.n = n; w.deadline = timeout < 0 ? UINT64_MAX : mono_ns + timeout * 1000000ull;
    auto scan = [&] { int c = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = p[i].fd < 0 ? 0 : fd_events(p[i].fd) & (p[i].events | POLLERR | POLLHUP); c += p[i].revents != 0; } return c; };
    int c = scan();
    if (c || timeout == 0) return c;
    block(w);
    return scan();
}
ssize_t read(int fd, void *b, size_t n)
{
    if (!fake(fd)) return syscall(SYS_read, fd, b, n);
    yield_point("read");
    Fd *f = F(fd);
    if (!f) { errno = EBADF; return -1; }
    switch (f->type) {
    case T::Event: {
        if (n < 8) { errno = EINVAL; return -1; }
        if (!f->counter) { errno = EAGAIN; return -1; }
        memcpy(b, &f->counter, 8); f->counter = 0; race::acquire(reinterpret_cast<void*>(0x10000ul + fd)); return 8; }
    case T::Conn: return conn_read(f, b, n);
    case T::File: return fs_read(fd, b, n);
    default: errno = EINVAL; return -1;
    }
}
ssize_t write(int fd, const void *b, size_t n)
{
    if (!fake(fd)) return syscall(SYS_write, fd, b, n);
    yield_point("write");
    Fd *f = F(fd);
    if (!f) { errno = EBADF; return -1; }
    switch (f->type) {
    case T::Event: { uint64_t v; memcpy(&v, b, 8); race::release(reinterpret_cast<void*>(0x10000ul + fd)); if (!f->counter) f->ready_seq = seq_counter++; f->counter += v; return 8; }
    case T::Conn: return conn_write(f, b, n);
    case T::File: return fs_write(fd, b, n);
    default: errno = EINVAL; return -1;
    }
}
ssize_t recv(int fd, void *b, size_t n, int) { return read(fd, b, n); }
ssize_t send(int fd, const void *b, size_t n, int) { return write(fd, b, n); }
ssize_t readv(int fd, const struct iovec *v, int c)
{
    if (!fake(fd)) return syscall(SYS_readv, fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { ssize_t r = read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (!fake(fd)) return syscall(SYS_writev, fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
int close(int fd)
{
    if (!fake(fd)) return syscall(SYS_close, fd);
    yield_point("close");
    return close_fd(fd);
}
off_t lseek(int fd, off_t o, int w) noexcept { if (!fake(fd)) return syscall(SYS_lseek, fd, o, w); return fs_seek(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { if (!fake(fd)) return syscall(SYS_lseek, fd, o, w); return fs_seek(fd, o, w); }
int fsync(int fd) { if (!fake(fd)) return 0; return fs_fsync(fd); }
int fdatasync(int fd) { if (!fake(fd)) return 0; return fs_fsync(fd); }
int open(const char *p, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    if (inmc_or_root(p)) return fs_open(p, flags, m);
    return syscall(SYS_openat, AT_FDCWD, p, flags, m);
}
int open64(const char *p, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap);
    if (inmc_or_root(p)) return fs_open(p, flags, m);
    return syscall(SYS_openat, AT_FDCWD, p, flags, m);
}
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
FILE *fopen(const char *p, const char *mode)
{
    if (inmc(p)) return fs_fopen(p, mode);
    REAL(FILE*, "fopen", (const char*, const char*)); return r(p, mode);
}
FILE *fopen64(const char *p, const char *mode)
{
    if (inmc(p)) return fs_fopen(p, mode);
    REAL(FILE*, "fopen64", (const char*, const char*)); return r(p, mode);
}
FILE *fdopen(int fd, const char *mode) noexcept
{
    if (fake(fd)) return mk_file(fd, mode);
    REAL(FILE*, "fdopen", (int, const char*)); return r(fd, mode);
}
int ftruncate(int fd, off_t n) noexcept
{
    if (!fake(fd)) return syscall(SYS_ftruncate, fd, n);
    Fd *f = F(fd); if (!f || f->type != T::File) { errno = EBADF; return -1; }
    int r = fsop("truncate", f->path); if (r > 0) { errno = r; return -1; }
    f->ino->data.resize(n); f->ino->pend.push_back({0, "", true, (size_t)n});
    return 0;
}
int rename(const char *a, const char *b) noexcept
{
    if (!inmc(a)) return syscall(SYS_rename, a, b);
    std::string x = norm(a), y = norm(b);
    if (!names.count(x)) { errno = ENOENT; return -1; }
    int r = fsop("rename", x, y);
    if (r > 0) { errno = r; return -1; }
    auto ino = names[x]; names.erase(x); names[y] = ino;
    dirops.push_back({2, x, y, ino});
    if (r == -2) do_crash();
    return 0;
}
int unlink(const char *a) noexcept
{
    if (!inmc(a)) return syscall(SYS_unlink, a);
    std::string x = norm(a);
    if (!names.count(x)) { errno = ENOENT; return -1; }
    int r = fsop("unlink", x);
    if (r > 0) { errno = r; return -1; }
    auto ino = names[x]; names.erase(x);
    dirops.push_back({1, x, "", ino});
    if (r == -2) do_crash();
    return 0;
}
int remove(const char *a) noexcept { return unlink(a); }
int mkdir(const char *p, mode_t m) noexcept { if (inmc(p)) { dirs.insert(norm(p)); return 0; } return syscall(SYS_mkdir, p, m); }
int access(const char *p, int m) noexcept
{
    if (inmc_or_root(p)) { std::string x = norm(p); if (dirs.count(x) || names.count(x)) return 0; errno = ENOENT; return -1; }
    return syscall(SYS_access, p, m);
}
int stat(const char *p, struct stat *st) noexcept { if (inmc_or_root(p)) return fs_stat(p, st); return syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); }
int lstat(const char *p, struct stat *st) noexcept { if (inmc_or_root(p)) return fs_stat(p, st); return syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int stat64(const char *p, struct stat64 *st) noexcept { return stat(p, reinterpret_cast<struct stat*>(st)); }
int lstat64(const char *p, struct stat64 *st) noexcept { return lstat(p, reinterpret_cast<struct stat*>(st)); }
int fstat(int fd, struct stat *st) noexcept
{
    if (fake(fd)) { Fd *f = F(fd); if (!f) { errno = EBADF; return -1; } if (f->ino) { memset(st, 0, sizeof *st); st->st_mode = f->ino->mode; st->st_size = f->ino->data.size(); st->st_blksize = 1024; return 0; } return fs_stat(f->path.c_str(), st); }
    return syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
}
int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, reinterpret_cast<struct stat*>(st)); }
int statvfs(const char *p, struct statvfs *st) noexcept
{
    if (inmc_or_root(p)) { memset(st, 0, sizeof *st); st->f_bsize = st->f_frsize = 4096; st->f_blocks = st->f_bfree = st->f_bavail = 1000000; return 0; }
    REAL(int, "statvfs", (const char*, struct statvfs*)); return r(p, st);
}
int chmod(const char *p, mode_t m) noexcept { if (inmc_or_root(p)) return 0; return cur ? 0 : syscall(SYS_chmod, p, m); }
int chown(const char *p, uid_t, gid_t) noexcept { (void)p; return 0; }
int glob(const char *pat, int flags, int (*ef)(const char*, int), glob_t *g)
{
    if (!inmc(pat)) { REAL(int, "glob", (const char*, int, int(*)(const char*, int), glob_t*)); return r(pat, flags, ef, g); }
    memset(g, 0, sizeof *g);
    std::vector<std::string> v;
    for (auto &p : names) if (fnmatch(pat, p.first.c_str(), FNM_PATHNAME | FNM_PERIOD) == 0) v.push_back(p.first);
    for (auto &p : dirs) if (fnmatch(pat, p.c_str(), FNM_PATHNAME | FNM_PERIOD) == 0) v.push_back(p);
    std::sort(v.begin(), v.end());
    if (v.empty()) return GLOB_NOMATCH;
    g->gl_pathc = v.size();
    g->gl_pathv = static_cast<char**>(calloc(v.size() + 1, sizeof(char*)));
    for (size_t i = 0; i < v.size(); i++) g->gl_pathv[i] = strdup(v[i].c_str());
    return 0;
}
// ---- DNS
struct DnsReq { std::vector<std::string> addrs; int err; int pending; };
static std::map<const struct gaicb*, DnsReq> dns;
int getaddrinfo_a(int, struct gaicb *list[], int n, struct sigevent *)
{
    for (int i = 0; i < n; i++) {
        DnsReq q; q.err = netpol.resolve ? netpol.resolve(list[i]->ar_name, q.addrs) : EAI_NONAME;
        struct addrinfo *head = nullptr, **tail = &head;
        if (q.err == 0)
            for (auto &a : q.addrs) {
                bool v6 = a.find(':') != std::string::npos;
                int want = list[i]->ar_request ? list[i]->ar_request->ai_family : AF_UNSPEC;
                if (want != AF_UNSPEC && want != (v6 ? AF_INET6 : AF_INET)) continue;
                auto *x = static_cast<addrinfo*>(calloc(1, sizeof(addrinfo) + sizeof(sockaddr_storage)));
                x->ai_addr = reinterpret_cast<sockaddr*>(x + 1);
                x->ai_family = v6 ? AF_INET6 : AF_INET; x->ai_socktype = SOCK_STREAM;
                if (v6) { auto *s = reinterpret_cast<sockaddr_in6*>(x->ai_addr); s->sin6_family = AF_INET6; inet_pton(AF_INET6, a.c_str(), &s->sin6_addr); x->ai_addrlen = sizeof *s; }
                else { auto *s = reinterpret_cast<sockaddr_in*>(x->ai_addr); s->sin_family = AF_INET; inet_pton(AF_INET, a.c_str(), &s->sin_addr); x->ai_addrlen = sizeof *s; }
                *tail = x; tail = &x->ai_next;
            }
        if (q.err == 0 && !head) q.err = EAI_NONAME;
        list[i]->ar_result = head;
        q.pending = 0;
        dns[list[i]] = q;
    }
    return 0;
}
int gai_error(struct gaicb *r_) noexcept { auto it = dns.find(r_); return it == dns.end() ? EAI_CANCELED : it->second.err; }
int gai_cancel(struct gaicb *r_) noexcept { (void)r_; return EAI_ALLDONE; }
void freeaddrinfo(struct addrinfo *a) noexcept { while (a) { auto *n = a->ai_next; free(a); a = n; } }
} // extern "C"
