// Deterministic simulation of the operating system below FlashMQ.
// Every thread of the server is a coroutine; sockets, epoll, eventfds, locks, time, randomness and the files under
// /mcfs/ are simulated. The harness ("driver") runs on the process's original stack.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <deque>
#include <functional>
#include <memory>
#include <sys/socket.h>

namespace sim {

constexpr int FD_BASE = 100000;

struct Conn {
    int id = 0;
    int fd = -1;                 // server side fd; -1 when not accepted yet or closed by the server
    int port = 0;                // listening port (incoming) or remote port (outgoing)
    bool outgoing = false;
    int connect_state = 0;       // outgoing: 0 pending, 1 connected, 2 failed
    int connect_errno = 0;
    std::string in;              // bytes on their way to the server
    std::string out;             // bytes the server wrote and the harness did not take yet
    size_t read_max = SIZE_MAX;  // max bytes a single read returns
    size_t write_max = SIZE_MAX; // max bytes a single write accepts
    size_t out_space = SIZE_MAX; // bytes the socket buffer still accepts in total
    bool fin = false;            // harness closed its sending side
    bool reset = false;          // harness reset the connection
    bool accepted = false;
    bool srv_closed = false;     // server closed
    bool srv_shutdown = false;
    bool nodelay = false;        // TCP_NODELAY
    uint64_t ready_seq = 0;
    uint64_t total_in = 0, total_out = 0;
    sockaddr_storage peer{};
    socklen_t peerlen = 0;
    std::string dest;            // outgoing: textual destination address
};
using ConnP = std::shared_ptr<Conn>;

// ---- life cycle ------------------------------------------------------------
void init();                                        // once per process, before anything of the server runs
int  boot(const std::vector<std::string> &argv, int (*mainf)(int, char**)); // starts the server's main thread; returns coroutine id
bool finished(int co, int *rc);                     // did this main thread return (or call exit)?
void abandon_all();                                 // "power off": forget all server threads, fds (files stay)
void kill_except_logger();

// ---- running ---------------------------------------------------------------
enum class RunResult { Idle, Crashed };
RunResult settle();                                 // run until every thread is blocked
void advance(uint64_t ms, uint64_t step_ms = 0);    // let virtual time pass, running everything that becomes due
uint64_t now_ns();
extern uint64_t clock_step_ns;                       // how much time passes whenever the server looks at the clock
void jump_realtime(int64_t delta_s);                // change the realtime clock only
int64_t realtime_s();
void deliver_signal(int sig);
bool crashed();
void clear_crashed();

// ---- sockets ---------------------------------------------------------------
bool listening(int port);
void busy_port(int port);                            // something else listens there
std::vector<int> listening_ports();
ConnP connect_in(int port, const char *ip = nullptr, uint16_t peerport = 0); // new incoming connection; null if nobody listens
ConnP connect_unix(const std::string &path);
void feed(const ConnP &c, const std::string &bytes);
void close_peer(const ConnP &c, bool rst = false);
std::string take(const ConnP &c);
std::vector<ConnP> &outgoing();                     // connections made by the server (bridges)
bool writable(const ConnP &c);
int open_fake_fds();

// DNS / connect policy for outgoing connections
struct NetPolicy {
    std::function<int(const std::string&, std::vector<std::string>&)> resolve; // 0 or EAI_ error
    std::function<int(const std::string&, int port)> connect;                  // 0 = ok, else errno
};
NetPolicy &net();

// ---- scheduling exploration --------------------------------------------------
struct Sched {
    bool on = false;
    int budget = 0;                                  // deviations left
    uint64_t points = 0, deviations = 0;
    std::function<int(int n)> choose;                // choose among n runnable threads (0 = default)
    uint64_t max_points = 100000;
    bool held = false;           // also switch right after a lock was obtained (matters for those who only try to get it)
};
Sched &sched();
void set_on_step(std::function<void()> f);          // called by the scheduler before every choice of a thread
void pass(uint64_t ms);                             // time passes, without anything running
extern std::function<int()> rand_hook;              // answers rand() when set
int current_id(); std::string thread_name(int id); bool is_tls(const void *p);
std::string schedule_trace();
uint64_t switches();
void set_epoll_order(std::function<int(int n)> f);   // optional: permute readiness order

// ---- file system -------------------------------------------------------------
namespace fs {
    void put(const std::string &path, const std::string &data, int64_t mtime = -1);
    bool get(const std::string &path, std::string &data);
    bool exists(const std::string &path);
    void remove(const std::string &path);
    void mkdir(const std::string &path);
    std::vector<std::string> list(const std::string &dir);
    struct Op { std::string kind, path, path2; size_t off = 0, len = 0; };
    // Called before every modifying operation. Return: 0 proceed; >0 fail with that errno;
    // -1 crash before the operation; -2 crash after it; for "write" -1000-n: short write of n bytes then ENOSPC next.
    void set_hook(std::function<int(const Op &)> h);
    uint64_t ops();
    // Durable view: what is guaranteed on disk. A crash state is chosen by the harness:
    // unsynced file data: per inode, number of pending writes kept (and a torn last one); unsynced directory ops: prefix kept.
    struct Pending { std::vector<std::string> inodes; std::vector<size_t> npending; size_t ndirops; };
    Pending pending();
    void crash_apply(const std::vector<size_t> &keep_writes, bool torn_last, size_t keep_dirops);
    void sync_all();                                 // everything durable (clean unmount)
}

uint64_t step_count();
extern bool verbose;
void set_stop_handler(std::function<void(const std::string&)> f); // harness bug / deadlock / livelock callback
std::string describe_threads();
bool deadlocked(std::string &why);
}
