// Happens-before data race detection on every explored schedule: the server is compiled with -fsanitize=thread, and this is the runtime
// behind it (not libtsan: the threads here are the simulated ones). Vector clocks per thread and synchronisation object; four remembered
// accesses per 8 bytes of memory. A conflicting pair of accesses that no synchronisation orders is reported, whichever came first,
// when it touches a data structure or freed memory: the server's plain counters and flags that are read without a lock are by design.
#include "race.h"
#ifdef MC_RACE
#include "explore.h"
#include "sim.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <malloc.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
extern "C" char __libc_single_threaded;
namespace {
constexpr int NT = 48;
struct VC { uint32_t c[NT]; };
struct Th { VC vc; uintptr_t stack[512]; int depth = 0; bool init = false; };
Th *th[NT];
struct Slot { uint32_t clock; uint8_t tid, mask, write, used; uint32_t site; uint32_t data; };
struct Cell { Slot s[4]; };
struct Page { Cell c[512]; };
std::unordered_map<uintptr_t, Page *> pages; uintptr_t last_page_no; Page *last_page;
std::unordered_map<uintptr_t, VC> syncs;
bool inside = false, enabled = false;
// the executable's functions
struct Fn { uintptr_t lo, hi; uint32_t name; bool user, harness, data; };
std::vector<Fn> fns; const char *strtab; uintptr_t base;
bool plain_user(const char *n) { return strncmp(n, "_ZNSt", 5) && strncmp(n, "_ZSt", 4) && strncmp(n, "_ZNKSt", 6) && strncmp(n, "_ZN9__gnu_cxx", 13) && strncmp(n, "_ZNK9__gnu_cxx", 14) && strncmp(n, "_ZNVSt", 6) && n[0] == '_' && n[1] == 'Z' && strncmp(n, "_ZZNSt", 6) && strncmp(n, "_ZNKRSt", 7) && strncmp(n, "_Zn", 3) && strncmp(n, "_Zd", 3); }
// Parts of data structures: containers, strings, owning pointers, callables. Looking at a size is like looking at a plain counter.
bool structural(const char *n)
{
    if (strstr(n, "4sizeEv") || strstr(n, "5emptyEv") || strstr(n, "6lengthEv") || strstr(n, "chrono")) return false;
    for (auto *k : {"6vector", "basic_string", "4list", "_List", "_Rb_tree", "_Rb_tree", "_Hash", "_List_node", "5deque", "_Deque", "shared_ptr", "_Sp_", "_shared_count", "_weak_count", "weak_ptr", "unique_ptr", "_Function", "8function", "_Node", "3map", "3set", "unordered"}) if (strstr(n, k)) return true;
    return false;
}
void load()
{
    int fd = open("/proc/self/exe", O_RDONLY); struct stat st; fstat(fd, &st); const char *m = (const char *)mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0); close(fd);
    auto *eh = (const ElfW(Ehdr) *)m; auto *sh = (const ElfW(Shdr) *)(m + eh->e_shoff); dl_iterate_phdr([](dl_phdr_info *i, size_t, void *) { base = i->dlpi_addr; return 1; }, nullptr);
    for (int i = 0; i < eh->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) { strtab = m + sh[sh[i].sh_link].sh_offset; auto *sy = (const ElfW(Sym) *)(m + sh[i].sh_offset); for (size_t k = 0; k < sh[i].sh_size / sizeof *sy; k++) if (ELF64_ST_TYPE(sy[k].st_info) == STT_FUNC && sy[k].st_size) fns.push_back({base + sy[k].st_value, base + sy[k].st_value + sy[k].st_size, sy[k].st_name, plain_user(strtab + sy[k].st_name), strstr(strtab + sy[k].st_name, "N3sim") || strstr(strtab + sy[k].st_name, "N2mc") || strncmp(strtab + sy[k].st_name, "_Z", 2), !plain_user(strtab + sy[k].st_name) && structural(strtab + sy[k].st_name)}); }
    std::sort(fns.begin(), fns.end(), [](const Fn &a, const Fn &b) { return a.lo < b.lo; });
}
const Fn *fn_of(uintptr_t pc) { auto it = std::upper_bound(fns.begin(), fns.end(), pc, [](uintptr_t p, const Fn &f) { return p < f.lo; }); if (it == fns.begin()) return nullptr; --it; return pc < it->hi ? &*it : nullptr; }
std::string name(const Fn *f)
{
    if (!f) return "?"; int s; char *d = abi::__cxa_demangle(strtab + f->name, nullptr, nullptr, &s); std::string r = d ? d : strtab + f->name; free(d); std::string o; int deep = 0;
    for (size_t i = 0; i < r.size(); i++) { if (r.compare(i, 8, "operator") == 0) { o += r.substr(i); break; } if (r[i] == '<') deep++; else if (r[i] == '>') deep--; else if (!deep) { if (r[i] == '(') { if (r.compare(i, 11, "(anonymous ") == 0) { deep = deep; } else break; } o += r[i]; } }
    size_t sp = o.rfind(' '); if (sp != std::string::npos && o.compare(0, 8, "operator") != 0 && o.find("operator") == std::string::npos) o = o.substr(sp + 1); return o;
}
// is the function one of the server's own? (the others are templates of the standard library)
enum { USER = 1, HARNESS = 2, DATA = 4 }; uint8_t *cls; uintptr_t cls_lo, cls_n;
inline int cl(uintptr_t pc) { return pc - cls_lo < cls_n ? cls[pc - cls_lo] : 0; }
inline bool user(uintptr_t pc) { return cl(pc) & USER; }
void classify() { cls_lo = fns.front().lo; cls_n = fns.back().hi - cls_lo; cls = (uint8_t *)mmap(nullptr, cls_n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); for (auto &f : fns) memset(cls + (f.lo - cls_lo), 8 | (f.user ? USER : 0) | (f.harness ? HARNESS : 0) | (f.data ? DATA : 0), f.hi - f.lo); }
uint32_t site_of(Th *t, uintptr_t pc, uintptr_t fp)
{
    if (!user(pc) && cl(pc)) for (int i = 0; i < 64; i++) { // templates of the standard library: whose are they? (everything has frame pointers)
        uintptr_t next = *(uintptr_t *)fp; pc = *(uintptr_t *)(fp + 8) - 1; if (user(pc) || next <= fp || next - fp > 0x40000 || next & 7) break; fp = next;
    }
    if (!user(pc)) for (int i = std::min(t->depth, 512) - 1; i >= 0; i--) if (user(t->stack[i] - 1)) { pc = t->stack[i] - 1; break; }
    return pc - base;
}
Th *me()
{
    int id = sim::current_id(); if (id < 0 || id >= NT) return nullptr; Th *&t = th[id];
    if (!t) { t = (Th *)mmap(nullptr, sizeof(Th), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); t->vc.c[id] = 1; t->init = true; }
    return t;
}
Page *page(uintptr_t a, bool make)
{
    uintptr_t n = a >> 12; if (n == last_page_no && last_page) return last_page; auto it = pages.find(n); if (it == pages.end()) { if (!make) return nullptr; Page *p = (Page *)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); it = pages.emplace(n, p).first; } last_page_no = n; last_page = it->second; return last_page;
}
void report(Th *t, uint32_t s1, bool w1, const Slot &o, uintptr_t a)
{
    (void)t; const Fn *f1 = fn_of(s1 + base), *f2 = fn_of(o.site + base); std::string n1 = name(f1), n2 = name(f2); if (n2 < n1) std::swap(n1, n2);
    std::string sig = "race:" + n1 + "/" + n2; inside = false; enabled = false;
    if (const char *cf = getenv("MC_RACE_COLLECT")) { FILE *f = fopen(cf, "a"); if (f) { fprintf(f, "%s +0x%lx +0x%lx %s %s\n", sig.c_str(), (long)s1, (long)o.site, w1 ? "w" : "r", o.write ? "w" : "r"); fclose(f); } }
    else if (!mc::known_sig(sig)) mc::fail(sig, "unsynchronised accesses to %p: %s by thread %s in %s (+0x%lx), earlier %s by thread %s in %s (+0x%lx); schedule %s", (void *)a, w1 ? "write" : "read", sim::thread_name(sim::current_id()).c_str(), name(f1).c_str(), (long)s1, o.write ? "write" : "read", sim::thread_name(o.tid).c_str(), name(f2).c_str(), (long)o.site, sim::schedule_trace().c_str());
    mc::count("known races met"); enabled = true; inside = true;
}
inline void access8(Th *t, int id, uintptr_t a, uint8_t mask, bool w, uint32_t site, int d)
{
    Cell &c = page(a, true)->c[(a >> 3) & 511]; int put = -1, empty = -1, old = -1; uint32_t now = t->vc.c[id];
    for (int i = 0; i < 4; i++) {
        Slot &s = c.s[i]; if (!s.used) { if (empty < 0) empty = i; continue; }
        if (s.tid == id) { if (s.clock == now && s.mask == mask && s.write >= w && s.data >= (uint32_t)d) return; if ((s.mask & mask) == s.mask && (w || !s.write)) put = i; continue; }
        bool hb = s.clock <= t->vc.c[s.tid];
        if (!hb && (s.mask & mask) && (w || s.write) && ((d & s.data & 1) || ((d | s.data) & 2))) { Slot copy = s; s.used = 0; report(t, site, w, copy, a); continue; }
        if (hb && (s.mask & mask) == s.mask && (w || !s.write)) old = i;
    }
    if (put < 0) put = old >= 0 ? old : empty; if (put < 0) put = (now + (a >> 3)) & 3;
    c.s[put] = {now, (uint8_t)id, mask, (uint8_t)w, 1, site, (uint32_t)d};
}
void access(uintptr_t a, size_t n, bool w, uintptr_t pc, uintptr_t fp)
{
    if (inside || !enabled) return; int id = sim::current_id(); if (id < 0 || id >= NT || sim::is_tls((void *)a)) return; inside = true; Th *t = me(); int d = (cl(pc) & DATA) != 0; uint32_t site = site_of(t, pc, fp); if (!cl(site + base) || cl(site + base) & HARNESS) { inside = false; return; }
    while (n) { size_t off = a & 7, k = std::min<size_t>(8 - off, n); access8(t, id, a, ((1u << k) - 1) << off, w, site, d); a += k; n -= k; }
    inside = false;
}
void reset(void *p, size_t n)
{
    if (!p || inside) return; inside = true; uintptr_t a = (uintptr_t)p & ~7ul, e = ((uintptr_t)p + n + 7) & ~7ul; while (a < e) { uintptr_t pe = std::min((a | 4095) + 1, e); if (Page *g = page(a, false)) memset(&g->c[(a >> 3) & 511], 0, (pe - a) / 8 * sizeof(Cell)); a = pe; } inside = false;
}
// freeing conflicts with every access not ordered before it; memory nobody touched needs no mark
void freed(void *p, uintptr_t pc, uintptr_t fp)
{
    if (!p || inside || !enabled) return; int id = sim::current_id(); if (id < 0 || id >= NT) return; inside = true; Th *t = me(); uint32_t site = site_of(t, pc, fp); if (!cl(site + base) || cl(site + base) & HARNESS) { inside = false; return; }
    uintptr_t a = (uintptr_t)p & ~7ul, e = (uintptr_t)p + malloc_usable_size(p); while (a < e) { uintptr_t pe = std::min((a | 4095) + 1, e); if (Page *g = page(a, false)) for (; a < pe; a += 8) { Cell &c = g->c[(a >> 3) & 511]; if (c.s[0].used | c.s[1].used | c.s[2].used | c.s[3].used) access8(t, id, a, 255, true, site, 2); } a = pe; }
    inside = false;
}
#define PC ((uintptr_t)__builtin_return_address(0) - 1), *(uintptr_t *)__builtin_frame_address(0)
}
namespace race { void fresh(void *p) { reset(p, malloc_usable_size(p)); } }
namespace race {
void prepare() { load(); classify(); }
void start() { __libc_single_threaded = 0; enabled = true;
    // an earlier server's life ended before this one
    for (auto &p : pages) munmap(p.second, sizeof(Page)); pages.clear(); syncs.clear(); last_page = nullptr; for (auto *&t : th) if (t) { munmap(t, sizeof(Th)); t = nullptr; } }
void acquire(const void *o) { if (!enabled || inside) return; int id = sim::current_id(); if (id < 0 || id >= NT) return; inside = true; auto it = syncs.find((uintptr_t)o); if (it != syncs.end()) { Th *t = me(); for (int i = 0; i < NT; i++) t->vc.c[i] = std::max(t->vc.c[i], it->second.c[i]); } inside = false; }
void release(const void *o) { if (!enabled || inside) return; int id = sim::current_id(); if (id < 0 || id >= NT) return; inside = true; Th *t = me(); VC &v = syncs[(uintptr_t)o]; for (int i = 0; i < NT; i++) v.c[i] = std::max(v.c[i], t->vc.c[i]); t->vc.c[id]++; inside = false; }
void release_as(int id, const void *o) { if (!enabled || id < 0 || id >= NT || !th[id]) return; VC &v = syncs[(uintptr_t)o]; for (int i = 0; i < NT; i++) v.c[i] = std::max(v.c[i], th[id]->vc.c[i]); }
void created(int id) { if (!enabled || id >= NT) return; int p = sim::current_id(); bool was = inside; inside = true; Th *&t = th[id]; t = (Th *)mmap(nullptr, sizeof(Th), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p >= 0) { Th *q = me(); t->vc = q->vc; q->vc.c[p]++; } else for (int i = 0; i < NT; i++) if (th[i] && i != id) for (int k = 0; k < NT; k++) t->vc.c[k] = std::max(t->vc.c[k], th[i]->vc.c[k]); t->vc.c[id] = 1; inside = was; }
void joined(int id) { if (!enabled || id >= NT || !th[id] || sim::current_id() < 0) return; Th *t = me(); for (int i = 0; i < NT; i++) t->vc.c[i] = std::max(t->vc.c[i], th[id]->vc.c[i]); }
bool on() { return enabled; }
void barrier() { // the harness looked and acted: everything so far happened before everything later
    if (!enabled) return; VC m; memset(&m, 0, sizeof m); for (auto *t : th) if (t) for (int i = 0; i < NT; i++) m.c[i] = std::max(m.c[i], t->vc.c[i]); for (int k = 0; k < NT; k++) if (th[k]) { th[k]->vc = m; th[k]->vc.c[k]++; } }
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *pc) { if (!enabled || inside) return; Th *t = me(); if (!t) return; if (t->depth < 512) t->stack[t->depth] = (uintptr_t)pc; t->depth++; }
void __tsan_func_exit() { if (!enabled || inside) return; Th *t = me(); if (t && t->depth > 0) t->depth--; }
#define RW(N) void __tsan_read##N(void *a) { access((uintptr_t)a, N, false, PC); } void __tsan_write##N(void *a) { access((uintptr_t)a, N, true, PC); } void __tsan_unaligned_read##N(void *a) { access((uintptr_t)a, N, false, PC); } void __tsan_unaligned_write##N(void *a) { access((uintptr_t)a, N, true, PC); } void __tsan_volatile_read##N(void *a) { access((uintptr_t)a, N, false, PC); } void __tsan_volatile_write##N(void *a) { access((uintptr_t)a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void *a, size_t n) { access((uintptr_t)a, n, true, PC); }
void __tsan_vptr_read(void **a) { access((uintptr_t)a, 8, false, PC); }
void __tsan_vptr_update(void **a, void *v) { if (*a != v) access((uintptr_t)a, 8, true, PC); }
static void acq(volatile void *a, int mo) { if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME) race::acquire((void *)((uintptr_t)a & ~7ul)); }
static void rel(volatile void *a, int mo) { if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) race::release((void *)((uintptr_t)a & ~7ul)); }
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T *a, int mo) { acq((volatile void *)a, mo); return *a; } \
void __tsan_atomic##B##_store(volatile T *a, T v, int mo) { rel(a, mo); *a = v; } \
T __tsan_atomic##B##_exchange(volatile T *a, T v, int mo) { rel(a, mo); acq(a, mo); T o = *a; *a = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int mo) { rel(a, mo); acq(a, mo); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int mo) { rel(a, mo); acq(a, mo); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int mo) { rel(a, mo); acq(a, mo); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int mo) { rel(a, mo); acq(a, mo); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int mo) { rel(a, mo); acq(a, mo); T o = *a; *a = o ^ v; return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int) { if (*a == *c) { rel(a, mo); acq(a, mo); *a = v; return 1; } acq(a, mo); *c = *a; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int f) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, f); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int mo, int f) { __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, f); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// allocation: fresh memory has no history; freeing counts as writing
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); reset(p, p ? malloc_usable_size(p) : 0); return p; }
void *__wrap_calloc(size_t n, size_t k) { void *p = __real_calloc(n, k); reset(p, p ? malloc_usable_size(p) : 0); return p; }
void *__wrap_realloc(void *o, size_t n) { if (o) freed(o, PC); void *p = __real_realloc(o, n); reset(p, p ? malloc_usable_size(p) : 0); return p; }
void __wrap_free(void *p) { freed(p, PC); __real_free(p); }
void *__real___cxa_allocate_exception(size_t) noexcept;
void *__wrap___cxa_allocate_exception(size_t n) noexcept { char *p = (char *)__real___cxa_allocate_exception(n); reset(p - 160, n + 160); return p; }
int __real___cxa_guard_acquire(uint64_t *); void __real___cxa_guard_release(uint64_t *);
int __wrap___cxa_guard_acquire(uint64_t *g) { int r = __real___cxa_guard_acquire(g); race::acquire((void *)((uintptr_t)g & ~7ul)); return r; }
void __wrap___cxa_guard_release(uint64_t *g) { race::release((void *)((uintptr_t)g & ~7ul)); __real___cxa_guard_release(g); }
}
static void *fresh(size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) abort(); reset(p, p ? malloc_usable_size(p) : 0); return p; }
void *operator new(size_t n) { return fresh(n); }
void *operator new[](size_t n) { return fresh(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return fresh(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return fresh(n); }
void operator delete(void *p) noexcept { freed(p, PC); __real_free(p); }
void operator delete[](void *p) noexcept { freed(p, PC); __real_free(p); }
void operator delete(void *p, size_t) noexcept { freed(p, PC); __real_free(p); }
void operator delete[](void *p, size_t) noexcept { freed(p, PC); __real_free(p); }
#endif
