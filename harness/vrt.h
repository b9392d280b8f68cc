// vrt: deterministic run-time for the conformance drivers.
//  * trace buffer shared with the parent (survives a crash of the history)
//  * one forked child per history
//  * controlled scheduler: every thread of the code under test is a real thread, but only the one
//    holding the token runs; it passes on at pthread calls, virtual system calls and (in objects
//    compiled with -fsanitize=thread, whose hooks vrt_tsan.cpp supplies) at memory accesses
//  * virtual clock
#ifndef VRT_H
#define VRT_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>

namespace vrt
{
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next();
    uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
    int range(int a, int b) { return a + (int)below((uint32_t)(b - a + 1)); }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
};
uint64_t mix(uint64_t a, uint64_t b);

// ---- trace
void emit(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string arr(const char *p, int n);          // bytes as a JSON array
std::string hexs(const char *p, int n);         // bytes as a JSON hex string (with quotes)
std::string jstr(const std::string &s);         // printable JSON string (quotes included)

// ---- options of the driver's command line
extern std::string g_script;                    // --script FILE
extern std::string g_mode;                      // --mode NAME
extern std::string g_work;                      // --work DIR (scratch directory, made by the runner)
extern int g_tier;                              // --tier 0|1
typedef void (*HistFn)(int h, Rng &rng);
int run_histories(int argc, char **argv, HistFn fn);
// number of histories a script driver has (lines, ...) may be checked by the driver itself
void exit_history(int code = 0) __attribute__((noreturn));

// ---- scheduler
struct SchedOpts
{
    uint64_t seed;
    int mode;            // 0: switch only when blocked, 1: random walk, 2: PCT
    uint32_t sync_num, sync_den;   // probability of a switch at a sync point (mode 1)
    uint32_t mem_den;    // a memory access is a switch point with probability 1/mem_den (0: never)
    int pct_depth;       // number of priority change points (mode 2)
    uint32_t pct_len;    // the change points are spread over this many steps
    uint32_t spurious_den; // a condition wait may wake spuriously, probability 1/den per scheduling (0: never)
    uint32_t tick_den;     // the clock may jump to the next deadline while others run (0: never)
    uint64_t max_steps;
    SchedOpts();
};
SchedOpts random_opts(Rng &rng, bool mem, bool timed = false);
void sched_start(const SchedOpts &o);   // the caller becomes thread 0
bool sched_on();
int self_id();
void point();                           // a possible switch
void idle();                            // block until nobody else can run (clock not advanced)
bool blocked(int tid);                  // is that thread blocked (or finished)
bool finished(int tid);
const char *why(int tid);
int nthreads();
bool wait_until(bool (*pred)(void *), void *arg, int64_t timeout_us, const char *what, bool cancelpoint);
void nopreempt(int d);                  // +1/-1
int spawn(void (*fn)(void *), void *arg); // a harness thread; returns its id
void stuck(const char *kind);           // emit {"e":kind,...} and end the history
extern int g_create_fail;                // the n-th pthread_create from now fails (0: none)
extern bool g_flag_handles;              // emit BadHandle when the handle of a thread that is gone is used
extern bool g_auto_time;                // advance the clock when everybody is blocked (default true)

// ---- clock
uint64_t now_us();
inline uint64_t now_ms() { return now_us() / 1000; }
void set_now_us(uint64_t t);
void advance_us(uint64_t d);
extern bool g_clock_on;
static const uint64_t T0_US = 1700000000ull * 1000000ull;

long real_write(int fd, const void *p, size_t n);
void mem_access();
void kill_after(int n);                 // the calling thread dies at its n-th memory access from now (0: not)
}
#endif
