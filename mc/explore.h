// Exhaustive exploration of a nondeterministic program by forking at every choice.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {

int choose(int n, const char *label = "");          // exhaustively explored choice in 0..n-1
template<class... A> int pick(A...);
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // history line, shown with a violation
std::string history();
[[noreturn]] void fail(const std::string &sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void prune();                           // this branch is not interesting (not counted as an execution)
void op();                                           // one transition was executed
void state(const std::string &s);                    // an abstract state was visited (hashed)
void sample(const std::string &s);                   // remember a case for the evidence file
[[noreturn]] void done();                            // execution complete
void count(const char *name, long n = 1);            // named counters
bool replaying();
bool known_sig(const std::string &sig);              // listed as a known finding: remembered as met, to be passed over
bool thorough();
int param(const char *name, int def);                // from the command line, --set name=value

struct CheckDef { const char *id; const char *rule; void (*run)(); };
void register_check(const CheckDef &d);
struct Reg { Reg(const char *id, const char *rule, void (*run)()) { register_check({id, rule, run}); } };
#define CHECK(ID, RULE) static void run_##ID(); static mc::Reg reg_##ID(#ID, RULE, &run_##ID); static void run_##ID()
int main_explore(int argc, char **argv);
}
#define REQUIRE(cond, sig, ...) do { if (!(cond)) mc::fail(sig, __VA_ARGS__); } while (0)
