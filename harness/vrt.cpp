#include "vrt.h"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <map>
#include <deque>
#include <algorithm>

namespace vrt
{
// ------------------------------------------------------------------ rng
uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t Rng::next()
{
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

// ------------------------------------------------------------------ trace
struct Shared
{
    volatile size_t len;
    volatile size_t over;
    char buf[1];
};
static Shared *g_sh;
static const size_t SH_SIZE = 8u << 20;

long real_write(int fd, const void *p, size_t n) { return syscall(SYS_write, fd, p, n); }

void emit(const char *fmt, ...)
{
    if (!g_sh)
        return;
    size_t room = SH_SIZE - sizeof(Shared) - g_sh->len;
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(g_sh->buf + g_sh->len, room, fmt, ap);
    va_end(ap);
    if (n < 0 || (size_t)n + 2 > room)
    {
        g_sh->over = 1; // no history of code that behaves comes near this
        exit_history(0);
    }
    g_sh->buf[g_sh->len + n] = '\n';
    g_sh->len += n + 1;
}
std::string arr(const char *p, int n)
{
    std::string s = "[";
    char b[8];
    for (int i = 0; i < n; i++)
    {
        snprintf(b, sizeof b, "%s%d", i ? "," : "", (unsigned char)p[i]);
        s += b;
    }
    return s + "]";
}
std::string hexs(const char *p, int n)
{
    static const char *d = "0123456789abcdef";
    std::string s = "\"";
    for (int i = 0; i < n; i++)
    {
        s += d[(unsigned char)p[i] >> 4];
        s += d[(unsigned char)p[i] & 15];
    }
    return s + "\"";
}
std::string jstr(const std::string &v)
{
    std::string s = "\"";
    char b[8];
    for (size_t i = 0; i < v.size(); i++)
    {
        unsigned char c = v[i];
        if (c == '"' || c == '\\')
        {
            s += '\\';
            s += (char)c;
        }
        else if (c < 32 || c > 126)
        {
            snprintf(b, sizeof b, "~%02x", c);
            s += b;
        }
        else
            s += (char)c;
    }
    return s + "\"";
}

// ------------------------------------------------------------------ histories
std::string g_script, g_mode, g_work;
int g_tier = 0;

void exit_history(int code)
{
    syscall(SYS_exit_group, code);
    for (;;)
        ;
}

int run_histories(int argc, char **argv, HistFn fn)
{
    uint64_t seed = 1;
    int from = 0, to = 1, tmo = 20;
    std::string out;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed")
            seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--from")
            from = atoi(v.c_str());
        else if (a == "--to")
            to = atoi(v.c_str());
        else if (a == "--out")
            out = v;
        else if (a == "--script")
            g_script = v;
        else if (a == "--mode")
            g_mode = v;
        else if (a == "--work")
            g_work = v;
        else if (a == "--tier")
            g_tier = atoi(v.c_str());
        else if (a == "--timeout")
            tmo = atoi(v.c_str());
    }
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    getrlimit(RLIMIT_NOFILE, &rl);
    if (rl.rlim_max > 4096)
        rl.rlim_cur = 4096;
    else
        rl.rlim_cur = rl.rlim_max;
    setrlimit(RLIMIT_NOFILE, &rl);
    FILE *f0 = fopen(out.c_str(), "w");
    if (!f0)
    {
        fprintf(stderr, "vrt: cannot write %s\n", out.c_str());
        return 3;
    }
    int fd = fcntl(fileno(f0), F_DUPFD_CLOEXEC, 1000);
    if (fd < 0)
        fd = dup(fileno(f0));
    fclose(f0);
    g_sh = (Shared *)mmap(0, SH_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int rc = 0, hangs = 0;
    for (int h = from; h < to; h++)
    {
        g_sh->len = 0;
        g_sh->over = 0;
        pid_t p = fork();
        if (p == 0)
        {
            setpgid(0, 0);
            // the code under test may print; keep it out of the runner's output
            if (!getenv("VRT_VERBOSE"))
            {
                int dn = open("/dev/null", O_RDWR);
                dup2(dn, 1);
                if (!getenv("VRT_STDERR"))
                    dup2(dn, 2);
                if (dn > 2)
                    syscall(SYS_close, dn);
            }
            Rng rng(mix(seed, h));
            fn(h, rng);
            exit_history(0);
        }
        int st = 0;
        double waited = 0;
        int polls = 0;
        while (true)
        {
            pid_t r = waitpid(p, &st, WNOHANG);
            if (r == p)
                break;
            struct timespec ts;
            ts.tv_sec = 0;
            ts.tv_nsec = polls < 50 ? 100000 : 2000000;
            polls++;
            waited += ts.tv_nsec / 1e9;
            syscall(SYS_nanosleep, &ts, 0);
            if (waited > tmo)
            {
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                st = -1;
                break;
            }
        }
        kill(-p, SIGKILL);
        char tail[200];
        tail[0] = 0;
        if (g_sh->over)
            snprintf(tail, sizeof tail, "{\"e\":\"TooLong\"}\n");
        else if (st == -1)
            snprintf(tail, sizeof tail, "{\"e\":\"Hang\",\"why\":\"wall\"}\n");
        else if (WIFSIGNALED(st))
            snprintf(tail, sizeof tail, "{\"e\":\"Crash\",\"sig\":%d}\n", WTERMSIG(st));
        else if (WEXITSTATUS(st) == 77)
            snprintf(tail, sizeof tail, "{\"e\":\"Crash\",\"sig\":77}\n"); // sanitizer
        else if (WEXITSTATUS(st) != 0)
        {
            if (WEXITSTATUS(st) == 3)
                rc = 3;
            snprintf(tail, sizeof tail, "{\"e\":\"Crash\",\"sig\":%d}\n", 1000 + WEXITSTATUS(st));
        }
        size_t off = 0;
        while (off < g_sh->len)
        {
            long w = real_write(fd, g_sh->buf + off, g_sh->len - off);
            if (w <= 0)
                return 3;
            off += w;
        }
        if (tail[0])
            real_write(fd, tail, strlen(tail));
        if ((st == -1 || g_sh->over) && ++hangs >= 2)
            break; // two are enough
    }
    return rc;
}

// ------------------------------------------------------------------ clock
bool g_clock_on = false;
static uint64_t g_now = T0_US;
static const uint64_t MONO_BASE = 1600000000ull * 1000000ull;
uint64_t now_us() { return g_now; }
void set_now_us(uint64_t t)
{
    g_now = t;
    g_clock_on = true;
}
void advance_us(uint64_t d) { g_now += d; }

// ------------------------------------------------------------------ scheduler
enum State
{
    RUN,
    BLK,
    DONE
};
enum Why
{
    W_NONE,
    W_MUTEX,
    W_COND,
    W_JOIN,
    W_PRED,
    W_SLEEP,
    W_IDLE,
    W_RW
};
struct Thr
{
    int id;
    volatile int go;
    State st;
    Why why;
    const void *obj;
    bool (*pred)(void *);
    void *parg;
    const char *what;
    bool timed;
    uint64_t dl;
    bool timedout;
    bool signaled;
    bool cancel, cancel_off, cancelpt;
    bool detached, joined, exited_real;
    pthread_t real;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    uint32_t prio;
    int nopre;
    int killcnt;
    int rwmode;
};
static bool g_on = false;
bool g_auto_time = true;
static std::vector<Thr *> *g_thr;
static __thread Thr *t_self = 0;
static SchedOpts g_o;
static Rng g_srng(1);
static uint64_t g_steps = 0;
static uint64_t g_autoadv = 0;
static int64_t g_memcount = 0;
static std::vector<uint64_t> g_cps; // change points, sorted descending
static uint32_t g_lowprio = 1000;

struct MState
{
    Thr *owner;
    int count;
    int type;
};
struct CState
{
    std::deque<Thr *> waiters;
    int clock;
};
struct RWState
{
    int readers;
    Thr *writer;
};
static std::unordered_map<const void *, MState> *g_mtx;
static std::unordered_map<const void *, CState> *g_cond;
static std::unordered_map<const void *, RWState> *g_rw;
static std::unordered_map<const void *, int> *g_sem;

SchedOpts::SchedOpts()
{
    seed = 1;
    mode = 0;
    sync_num = 1;
    sync_den = 2;
    mem_den = 0;
    pct_depth = 0;
    pct_len = 1000;
    spurious_den = 0;
    tick_den = 0;
    max_steps = 3000000;
}
SchedOpts random_opts(Rng &rng, bool mem, bool timed)
{
    SchedOpts o;
    o.seed = rng.next();
    uint32_t k = rng.below(8);
    if (k == 0)
        o.mode = 0;
    else if (k <= 4)
    {
        o.mode = 1;
        static const uint32_t dens[] = {1, 2, 3, 8};
        o.sync_den = dens[rng.below(4)];
        static const uint32_t mds[] = {0, 2, 5, 20, 100, 400};
        o.mem_den = mem ? mds[rng.below(6)] : 0;
    }
    else
    {
        o.mode = 2;
        o.pct_depth = rng.range(1, 5);
        static const uint32_t lens[] = {50, 200, 800, 3000, 12000};
        o.pct_len = lens[rng.below(5)];
        o.mem_den = mem ? 1 : 0;
    }
    if (rng.chance(1, 3))
        o.spurious_den = 30;
    if (timed && rng.chance(1, 2))
        o.tick_den = 40;
    return o;
}

static void fut_wait(volatile int *p)
{
    while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0)
        syscall(SYS_futex, p, FUTEX_WAIT, 0, 0, 0, 0);
    __atomic_store_n(p, 0, __ATOMIC_RELEASE);
}
static void fut_wake(volatile int *p)
{
    __atomic_store_n(p, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, p, FUTEX_WAKE, 1, 0, 0, 0);
}

bool sched_on() { return g_on && t_self; }
int self_id() { return t_self ? t_self->id : -1; }
int nthreads() { return g_thr ? (int)g_thr->size() : 0; }
bool blocked(int t) { return (*g_thr)[t]->st != RUN; }
bool finished(int t) { return (*g_thr)[t]->st == DONE; }
static const char *whyname(Thr *t)
{
    static const char *n[] = {"run", "mutex", "cond", "join", "pred", "sleep", "idle", "rwlock"};
    if (t->st == DONE)
        return "done";
    if (t->st == RUN)
        return "run";
    if (t->why == W_PRED && t->what)
        return t->what;
    return n[t->why];
}
const char *why(int t) { return whyname((*g_thr)[t]); }
void nopreempt(int d)
{
    if (t_self)
        t_self->nopre += d;
}

static Thr *new_thr()
{
    Thr *t = new Thr;
    memset((void *)t, 0, sizeof *t);
    t->id = (int)g_thr->size();
    t->prio = 1000 + g_srng.below(1000000);
    g_thr->push_back(t);
    return t;
}
static void reset_memcount()
{
    if (g_o.mode == 2 || g_o.mem_den <= 1)
        g_memcount = 1;
    else
        g_memcount = 1 + g_srng.below(2 * g_o.mem_den);
}
void sched_start(const SchedOpts &o)
{
    g_o = o;
    g_srng = Rng(o.seed);
    g_thr = new std::vector<Thr *>;
    g_mtx = new std::unordered_map<const void *, MState>;
    g_cond = new std::unordered_map<const void *, CState>;
    g_rw = new std::unordered_map<const void *, RWState>;
    g_sem = new std::unordered_map<const void *, int>;
    if (o.mode == 2)
    {
        for (int i = 0; i < o.pct_depth; i++)
            g_cps.push_back(1 + g_srng.below(o.pct_len));
        std::sort(g_cps.begin(), g_cps.end());
        std::reverse(g_cps.begin(), g_cps.end());
    }
    Thr *t = new_thr();
    t->real = pthread_self();
    t->st = RUN;
    t_self = t;
    reset_memcount();
    g_clock_on = true;
    g_on = true;
}
void stuck(const char *kind)
{
    if (t_self)
        t_self->nopre++; // no switch any more
    std::string s;
    if (g_thr)
        for (size_t i = 0; i < g_thr->size(); i++)
        {
            s += i ? "," : "";
            s += std::string("\"") + whyname((*g_thr)[i]) + "\"";
        }
    emit("{\"e\":\"%s\",\"thr\":[%s]}", kind, s.c_str());
    exit_history(0);
}
static bool deliver_cancel(Thr *t) { return t->cancel && !t->cancel_off && t->cancelpt; }
// predicates are the harness's own: no switch inside
static bool g_inpred = false;
static bool hold(Thr *t)
{
    g_inpred = true;
    bool b = t->pred(t->parg);
    g_inpred = false;
    return b;
}
static bool ready(Thr *t)
{
    if (t->st == RUN)
        return true;
    if (t->st == DONE)
        return false;
    switch (t->why)
    {
    case W_MUTEX:
        return (*g_mtx)[t->obj].owner == 0;
    case W_COND:
        return t->signaled || deliver_cancel(t) || (t->timed && g_now >= t->dl);
    case W_JOIN:
        return ((Thr *)t->obj)->st == DONE;
    case W_PRED:
        return hold(t) || deliver_cancel(t) || (t->timed && g_now >= t->dl);
    case W_SLEEP:
        return deliver_cancel(t) || g_now >= t->dl;
    case W_RW:
    {
        RWState &r = (*g_rw)[t->obj];
        return t->rwmode == 1 ? r.writer == 0 : (r.writer == 0 && r.readers == 0);
    }
    default:
        return false;
    }
}
static Thr *pick(bool may_stay)
{
    for (;;)
    {
        // a spurious wake-up of a condition waiter
        if (g_o.spurious_den && g_srng.chance(1, g_o.spurious_den))
        {
            std::vector<Thr *> w;
            for (size_t i = 0; i < g_thr->size(); i++)
                if ((*g_thr)[i]->st == BLK && (*g_thr)[i]->why == W_COND && !(*g_thr)[i]->signaled)
                    w.push_back((*g_thr)[i]);
            if (!w.empty())
                w[g_srng.below(w.size())]->signaled = true;
        }
        if (g_o.tick_den && g_auto_time && g_srng.chance(1, g_o.tick_den))
        {
            uint64_t m = ~0ull;
            for (size_t i = 0; i < g_thr->size(); i++)
            {
                Thr *t = (*g_thr)[i];
                if (t->st == BLK && t->timed && t->dl > g_now && t->dl < m)
                    m = t->dl;
            }
            if (m != ~0ull)
                g_now = m;
        }
        std::vector<Thr *> en;
        Thr *idle = 0;
        for (size_t i = 0; i < g_thr->size(); i++)
        {
            Thr *t = (*g_thr)[i];
            if (t->st == BLK && t->why == W_IDLE)
                idle = t;
            else if (ready(t))
                en.push_back(t);
        }
        if (en.empty())
        {
            if (idle)
                return idle;
            uint64_t m = ~0ull;
            for (size_t i = 0; i < g_thr->size(); i++)
            {
                Thr *t = (*g_thr)[i];
                if (t->st == BLK && t->timed && t->dl < m)
                    m = t->dl;
            }
            if (m == ~0ull)
                stuck("Deadlock");
            if (++g_autoadv > 20000)
                stuck("Hang");
            if (m > g_now)
                g_now = m;
            continue;
        }
        if (g_o.mode == 2)
        {
            Thr *b = en[0];
            for (size_t i = 1; i < en.size(); i++)
                if (en[i]->prio > b->prio)
                    b = en[i];
            return b;
        }
        if (g_o.mode == 0)
        {
            if (may_stay && t_self && ready(t_self))
                return t_self;
            return en[g_srng.below(en.size())];
        }
        return en[g_srng.below(en.size())];
    }
}
static void wake_thr(Thr *n)
{
    if (n->st == BLK)
    {
        n->st = RUN;
        n->timedout = false;
        if (n->why == W_COND)
            n->timedout = !n->signaled && n->timed && g_now >= n->dl;
        else if (n->why == W_PRED)
            n->timedout = !hold(n);
    }
    fut_wake(&n->go);
}
static void switch_from(Thr *me, Thr *n)
{
    if (n == me)
    {
        if (me->st == BLK)
        {
            me->st = RUN;
            me->timedout = false;
            if (me->why == W_COND)
                me->timedout = !me->signaled && me->timed && g_now >= me->dl;
            else if (me->why == W_PRED)
                me->timedout = !hold(me);
        }
        return;
    }
    wake_thr(n);
    fut_wait(&me->go);
}
static void count_step()
{
    if (++g_steps > g_o.max_steps)
        stuck("Hang");
    if (g_o.mode == 2)
        while (!g_cps.empty() && g_steps >= g_cps.back())
        {
            g_cps.pop_back();
            if (t_self)
                t_self->prio = --g_lowprio;
        }
    // PCT is unfair: now and then demote whoever runs, so that spinning cannot last for ever
    if (g_o.mode == 2 && g_steps % 20000 == 0 && t_self)
        t_self->prio = --g_lowprio;
}
void point()
{
    Thr *me = t_self;
    if (!g_on || !me || me->nopre || g_inpred)
        return;
    count_step();
    if (g_o.mode == 0)
        return;
    if (g_o.mode == 1 && !g_srng.chance(g_o.sync_num, g_o.sync_den))
        return;
    switch_from(me, pick(true));
}
void kill_after(int n)
{
    if (t_self)
        t_self->killcnt = n;
}
void mem_access()
{
    Thr *me = t_self;
    if (g_on && me && me->killcnt > 0 && --me->killcnt == 0)
    {
        emit("{\"e\":\"Killed\",\"t\":%d}", me->id);
        me->st = DONE; // it holds whatever it holds, and does nothing any more
        switch_from(me, pick(false));
    }
    if (!g_on || !me || me->nopre || g_inpred || g_o.mem_den == 0)
        return;
    if (--g_memcount > 0)
        return;
    reset_memcount();
    count_step();
    if (g_o.mode == 2)
    {
        static uint64_t last = 0;
        // only a change point can alter the choice
        if (g_cps.size() == last && g_steps % 20000 != 0)
            return;
        last = g_cps.size();
    }
    switch_from(me, pick(true));
}
static void block(Why w)
{
    Thr *me = t_self;
    count_step();
    me->why = w;
    me->st = BLK;
    switch_from(me, pick(false));
    me->why = W_NONE;
    me->what = 0;
}
void idle()
{
    Thr *me = t_self;
    me->timed = false;
    block(W_IDLE);
}
static void do_cancel(Thr *me)
{
    me->cancel_off = true;
    pthread_exit(PTHREAD_CANCELED);
}
bool wait_until(bool (*pred)(void *), void *arg, int64_t timeout_us, const char *what, bool cp)
{
    Thr *me = t_self;
    me->cancelpt = cp;
    if (deliver_cancel(me))
        do_cancel(me);
    me->pred = pred;
    me->parg = arg;
    me->what = what;
    me->timed = timeout_us >= 0;
    me->dl = g_now + (timeout_us >= 0 ? timeout_us : 0);
    block(W_PRED);
    bool to = me->timedout;
    me->timed = false;
    if (deliver_cancel(me))
        do_cancel(me);
    me->cancelpt = false;
    return !to;
}

// ---- thread start
struct ThrEnd
{
    Thr *t;
    ~ThrEnd()
    {
        t->st = DONE;
        t->timed = false;
        Thr *n = pick(false);
        t_self = 0;
        wake_thr(n);
    }
};
static void *tramp(void *p)
{
    Thr *t = (Thr *)p;
    fut_wait(&t->go);
    t_self = t;
    ThrEnd end = {t};
    t->ret = t->fn(t->arg);
    return t->ret;
}

// ------------------------------------------------------------------ real functions
#define REAL(ret, name, args) \
    typedef ret(*name##_t) args; \
    static name##_t real_##name() \
    { \
        static name##_t f = 0; \
        if (!f) \
            f = (name##_t)dlsym(RTLD_NEXT, #name); \
        return f; \
    }
REAL(int, pthread_create, (pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))
REAL(int, pthread_join, (pthread_t, void **))
REAL(int, pthread_detach, (pthread_t))
REAL(int, pthread_cancel, (pthread_t))
REAL(int, pthread_mutex_init, (pthread_mutex_t *, const pthread_mutexattr_t *))
REAL(int, pthread_mutex_destroy, (pthread_mutex_t *))
REAL(int, pthread_mutex_lock, (pthread_mutex_t *))
REAL(int, pthread_mutex_trylock, (pthread_mutex_t *))
REAL(int, pthread_mutex_unlock, (pthread_mutex_t *))
REAL(int, pthread_cond_init, (pthread_cond_t *, const pthread_condattr_t *))
REAL(int, pthread_cond_destroy, (pthread_cond_t *))
REAL(int, pthread_cond_wait, (pthread_cond_t *, pthread_mutex_t *))
REAL(int, pthread_cond_timedwait, (pthread_cond_t *, pthread_mutex_t *, const struct timespec *))
REAL(int, pthread_cond_signal, (pthread_cond_t *))
REAL(int, pthread_cond_broadcast, (pthread_cond_t *))
REAL(int, clock_gettime, (clockid_t, struct timespec *))

static Thr *find_thr(pthread_t p)
{
    for (size_t i = g_thr->size(); i-- > 0;)
        if ((*g_thr)[i]->real == p)
            return (*g_thr)[i];
    return 0;
}
// the handle of a thread that was joined, or that has ended detached, may not be used again
bool g_flag_handles = false;
int g_create_fail = 0;
static void bad_handle(Thr *t)
{
    if (g_flag_handles && (!t || t->joined || (t->detached && t->st == DONE)))
        emit("{\"e\":\"BadHandle\"}");
}
struct SpawnArg
{
    void (*fn)(void *);
    void *arg;
};
static void *spawn_tramp(void *p)
{
    SpawnArg a = *(SpawnArg *)p;
    delete (SpawnArg *)p;
    a.fn(a.arg);
    return 0;
}
int spawn(void (*fn)(void *), void *arg)
{
    SpawnArg *a = new SpawnArg;
    a->fn = fn;
    a->arg = arg;
    pthread_t p;
    nopreempt(1);
    if (pthread_create(&p, 0, spawn_tramp, a) != 0)
        exit_history(3);
    nopreempt(-1);
    return (int)g_thr->size() - 1;
}
static void mutex_acquire(const void *m)
{
    Thr *me = t_self;
    MState &s = (*g_mtx)[m];
    if (s.owner == me && s.type == PTHREAD_MUTEX_RECURSIVE)
    {
        s.count++;
        return;
    }
    while ((*g_mtx)[m].owner != 0)
    {
        me->obj = m;
        me->timed = false;
        block(W_MUTEX);
    }
    (*g_mtx)[m].owner = me;
    (*g_mtx)[m].count = 1;
}
static void mutex_release(const void *m)
{
    MState &s = (*g_mtx)[m];
    if (s.type == PTHREAD_MUTEX_RECURSIVE && s.count > 1)
    {
        s.count--;
        return;
    }
    s.owner = 0;
    s.count = 0;
}
static int cond_wait_common(pthread_cond_t *c, pthread_mutex_t *m, bool timed, uint64_t dl)
{
    Thr *me = t_self;
    point();
    me->cancelpt = true;
    if (deliver_cancel(me))
        do_cancel(me);
    mutex_release(m);
    me->signaled = false;
    me->timed = timed;
    me->dl = dl;
    me->obj = c;
    (*g_cond)[c].waiters.push_back(me);
    block(W_COND);
    bool to = me->timedout, can = deliver_cancel(me) && !me->signaled;
    std::deque<Thr *> &w = (*g_cond)[c].waiters;
    for (size_t i = 0; i < w.size(); i++)
        if (w[i] == me)
        {
            w.erase(w.begin() + i);
            break;
        }
    me->timed = false;
    mutex_acquire(m);
    if (can)
        do_cancel(me);
    me->cancelpt = false;
    return to ? ETIMEDOUT : 0;
}
static uint64_t ts_us(const struct timespec *t, int clock)
{
    int64_t us = (int64_t)t->tv_sec * 1000000ll + t->tv_nsec / 1000;
    if (clock == CLOCK_MONOTONIC)
        us += MONO_BASE;
    return us < 0 ? 0 : (uint64_t)us;
}
static bool do_sleep(uint64_t us)
{
    Thr *me = t_self;
    me->cancelpt = true;
    if (deliver_cancel(me))
        do_cancel(me);
    me->timed = true;
    me->dl = g_now + us;
    block(W_SLEEP);
    me->timed = false;
    if (deliver_cancel(me))
        do_cancel(me);
    me->cancelpt = false;
    return true;
}
} // namespace vrt

using namespace vrt;
#define ON (vrt::g_on && vrt::t_self)

extern "C"
{
int pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*fn)(void *), void *arg) noexcept
{
    if (!ON)
        return real_pthread_create()(p, a, fn, arg);
    if (g_create_fail > 0 && --g_create_fail == 0)
        return EAGAIN;
    Thr *t = new_thr();
    t->fn = fn;
    t->arg = arg;
    t->st = RUN;
    int det = 0;
    if (a)
        pthread_attr_getdetachstate(a, &det);
    t->detached = det == PTHREAD_CREATE_DETACHED;
    int r = real_pthread_create()(&t->real, a, tramp, t);
    if (r != 0)
    {
        t->st = DONE;
        return r;
    }
    *p = t->real;
    point();
    return 0;
}
int pthread_join(pthread_t p, void **ret)
{
    if (!ON)
        return real_pthread_join()(p, ret);
    point();
    Thr *t = find_thr(p);
    bad_handle(t);
    if (!t || t->detached || t->joined)
        return ESRCH;
    if (t == t_self)
        return EDEADLK;
    Thr *me = t_self;
    if (t->st != DONE)
    {
        me->obj = t;
        me->timed = false;
        block(W_JOIN);
    }
    t->joined = true;
    return real_pthread_join()(p, ret);
}
int pthread_detach(pthread_t p) noexcept
{
    if (!ON)
        return real_pthread_detach()(p);
    point();
    Thr *t = find_thr(p);
    bad_handle(t);
    if (!t || t->joined)
        return ESRCH;
    if (t->detached)
        return EINVAL;
    t->detached = true;
    return 0; // the real thread is left joinable so that its handle stays unique
}
int pthread_cancel(pthread_t p)
{
    if (!ON)
        return real_pthread_cancel()(p);
    point();
    Thr *t = find_thr(p);
    bad_handle(t);
    if (!t || t->st == DONE)
        return ESRCH;
    t->cancel = true;
    return 0;
}
int pthread_setcancelstate(int st, int *old)
{
    if (ON)
    {
        if (old)
            *old = t_self->cancel_off ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE;
        t_self->cancel_off = st == PTHREAD_CANCEL_DISABLE;
    }
    return 0;
}
int pthread_setcanceltype(int, int *) { return 0; }
void pthread_testcancel()
{
    if (!ON)
        return;
    point();
    t_self->cancelpt = true;
    if (deliver_cancel(t_self))
        do_cancel(t_self);
    t_self->cancelpt = false;
}

int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) noexcept
{
    if (ON)
    {
        MState s = {0, 0, 0};
        if (a)
            pthread_mutexattr_gettype(a, &s.type);
        (*g_mtx)[m] = s;
    }
    return real_pthread_mutex_init()(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t *m) noexcept
{
    if (ON)
    {
        g_mtx->erase(m);
        return 0;
    }
    return real_pthread_mutex_destroy()(m);
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
    if (!ON)
        return real_pthread_mutex_lock()(m);
    point();
    mutex_acquire(m);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) noexcept
{
    if (ON)
    {
        point();
        mutex_acquire(m);
    }
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept
{
    if (!ON)
        return real_pthread_mutex_trylock()(m);
    point();
    MState &s = (*g_mtx)[m];
    if (s.owner && !(s.owner == t_self && s.type == PTHREAD_MUTEX_RECURSIVE))
        return EBUSY;
    mutex_acquire(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
{
    if (!ON)
        return real_pthread_mutex_unlock()(m);
    mutex_release(m);
    point();
    return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) noexcept
{
    if (ON)
    {
        CState s;
        clockid_t ck = CLOCK_REALTIME;
        if (a)
            pthread_condattr_getclock(a, &ck);
        s.clock = ck;
        (*g_cond)[c] = s;
    }
    return real_pthread_cond_init()(c, a);
}
int pthread_cond_destroy(pthread_cond_t *c) noexcept
{
    if (ON)
    {
        g_cond->erase(c);
        return 0;
    }
    return real_pthread_cond_destroy()(c);
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!ON)
        return real_pthread_cond_wait()(c, m);
    return cond_wait_common(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
    if (!ON)
        return real_pthread_cond_timedwait()(c, m, t);
    if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000l)
        return EINVAL;
    return cond_wait_common(c, m, true, ts_us(t, (*g_cond)[c].clock));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t ck, const struct timespec *t)
{
    if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000l)
        return EINVAL;
    return cond_wait_common(c, m, true, ts_us(t, ck));
}
int pthread_cond_signal(pthread_cond_t *c) noexcept
{
    if (!ON)
        return real_pthread_cond_signal()(c);
    point();
    std::deque<Thr *> &w = (*g_cond)[c].waiters;
    std::vector<Thr *> cand;
    for (size_t i = 0; i < w.size(); i++)
        if (!w[i]->signaled)
            cand.push_back(w[i]);
    if (!cand.empty())
        cand[g_srng.below(cand.size())]->signaled = true;
    point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept
{
    if (!ON)
        return real_pthread_cond_broadcast()(c);
    point();
    std::deque<Thr *> &w = (*g_cond)[c].waiters;
    for (size_t i = 0; i < w.size(); i++)
        w[i]->signaled = true;
    point();
    return 0;
}
// ---- initialisation once
static bool guard_free(void *g) { return ((volatile char *)g)[1] == 0; }
int __cxa_guard_acquire(char *g)
{
    if (ON)
        point();
    for (;;)
    {
        if (__atomic_load_n(g, __ATOMIC_ACQUIRE))
            return 0;
        char z = 0;
        if (__atomic_compare_exchange_n(g + 1, &z, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE))
            return 1;
        if (ON)
            wait_until(guard_free, g, -1, "static", false);
        else
            sched_yield();
    }
}
void __cxa_guard_release(char *g)
{
    __atomic_store_n(g, 1, __ATOMIC_RELEASE);
    __atomic_store_n(g + 1, 0, __ATOMIC_RELEASE);
    if (ON)
        point();
}
void __cxa_guard_abort(char *g) { __atomic_store_n(g + 1, 0, __ATOMIC_RELEASE); }
static bool once_done(void *c) { return *(volatile int *)c != 1; }
int pthread_once(int *c, void (*fn)(void))
{
    if (!ON)
    {
        typedef int (*once_fn)(int *, void (*)(void));
        return ((once_fn)dlsym(RTLD_NEXT, "pthread_once"))(c, fn);
    }
    point();
    while (*(volatile int *)c == 1)
        wait_until(once_done, c, -1, "once", false);
    if (*(volatile int *)c == 0)
    {
        *(volatile int *)c = 1;
        fn();
        *(volatile int *)c = 2;
    }
    point();
    return 0;
}
// ---- rwlock, spin, sem
int pthread_rwlock_init(pthread_rwlock_t *, const pthread_rwlockattr_t *) noexcept { return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *l) noexcept
{
    if (ON)
        g_rw->erase(l);
    return 0;
}
static int rw_lock(pthread_rwlock_t *l, int mode, bool wait)
{
    if (!ON)
        return 0;
    point();
    for (;;)
    {
        RWState &r = (*g_rw)[l];
        if (mode == 1 ? r.writer == 0 : (r.writer == 0 && r.readers == 0))
        {
            if (mode == 1)
                r.readers++;
            else
                r.writer = t_self;
            return 0;
        }
        if (!wait)
            return EBUSY;
        t_self->obj = l;
        t_self->rwmode = mode;
        t_self->timed = false;
        block(W_RW);
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept { return rw_lock(l, 1, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept { return rw_lock(l, 2, true); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) noexcept { return rw_lock(l, 1, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) noexcept { return rw_lock(l, 2, false); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept
{
    if (!ON)
        return 0;
    RWState &r = (*g_rw)[l];
    if (r.writer == t_self)
        r.writer = 0;
    else if (r.readers > 0)
        r.readers--;
    point();
    return 0;
}
int pthread_spin_init(pthread_spinlock_t *l, int) noexcept
{
    if (ON)
    {
        MState s = {0, 0, 0};
        (*g_mtx)[(const void *)l] = s;
    }
    return 0;
}
int pthread_spin_destroy(pthread_spinlock_t *) noexcept { return 0; }
int pthread_spin_lock(pthread_spinlock_t *l) noexcept
{
    if (ON)
    {
        point();
        mutex_acquire((const void *)l);
    }
    return 0;
}
int pthread_spin_trylock(pthread_spinlock_t *l) noexcept
{
    if (!ON)
        return 0;
    point();
    if ((*g_mtx)[(const void *)l].owner)
        return EBUSY;
    mutex_acquire((const void *)l);
    return 0;
}
int pthread_spin_unlock(pthread_spinlock_t *l) noexcept
{
    if (ON)
    {
        mutex_release((const void *)l);
        point();
    }
    return 0;
}
static bool sem_pos(void *s) { return (*g_sem)[s] > 0; }
int sem_init(sem_t *s, int, unsigned v) noexcept
{
    if (ON)
        (*g_sem)[s] = v;
    return 0;
}
int sem_destroy(sem_t *s) noexcept
{
    if (ON)
        g_sem->erase(s);
    return 0;
}
int sem_post(sem_t *s) noexcept
{
    if (ON)
    {
        (*g_sem)[s]++;
        point();
    }
    return 0;
}
int sem_wait(sem_t *s)
{
    if (ON)
    {
        point();
        while ((*g_sem)[s] <= 0)
            wait_until(sem_pos, s, -1, "sem", true);
        (*g_sem)[s]--;
    }
    return 0;
}
int sem_trywait(sem_t *s) noexcept
{
    if (!ON)
        return 0;
    point();
    if ((*g_sem)[s] <= 0)
    {
        errno = EAGAIN;
        return -1;
    }
    (*g_sem)[s]--;
    return 0;
}
int sem_timedwait(sem_t *s, const struct timespec *t)
{
    if (!ON)
        return 0;
    point();
    int64_t us = (int64_t)ts_us(t, CLOCK_REALTIME) - (int64_t)g_now;
    if ((*g_sem)[s] <= 0 && !wait_until(sem_pos, s, us > 0 ? us : 0, "sem", true))
    {
        errno = ETIMEDOUT;
        return -1;
    }
    (*g_sem)[s]--;
    return 0;
}
int sched_yield() noexcept
{
    if (ON)
    {
        if (g_o.mode == 2)
            t_self->prio = --g_lowprio;
        point();
    }
    return 0;
}
// ---- sleeping
int usleep(useconds_t us)
{
    if (ON)
    {
        do_sleep(us);
        return 0;
    }
    struct timespec t;
    t.tv_sec = us / 1000000;
    t.tv_nsec = (us % 1000000) * 1000;
    return syscall(SYS_nanosleep, &t, 0);
}
unsigned sleep(unsigned s)
{
    if (ON)
        do_sleep((uint64_t)s * 1000000);
    else
    {
        struct timespec t;
        t.tv_sec = s;
        t.tv_nsec = 0;
        syscall(SYS_nanosleep, &t, 0);
    }
    return 0;
}
int nanosleep(const struct timespec *t, struct timespec *r)
{
    if (ON)
    {
        do_sleep((uint64_t)t->tv_sec * 1000000 + t->tv_nsec / 1000);
        return 0;
    }
    return syscall(SYS_nanosleep, t, r);
}
int clock_nanosleep(clockid_t ck, int flags, const struct timespec *t, struct timespec *)
{
    if (ON)
    {
        uint64_t us = (uint64_t)t->tv_sec * 1000000 + t->tv_nsec / 1000;
        if (flags & TIMER_ABSTIME)
        {
            uint64_t d = ts_us(t, ck);
            us = d > g_now ? d - g_now : 0;
        }
        do_sleep(us);
    }
    return 0;
}
// ---- clock
time_t time(time_t *p) noexcept
{
    time_t v;
    if (g_clock_on)
        v = g_now / 1000000;
    else
    {
        struct timespec t;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &t);
        v = t.tv_sec;
    }
    if (p)
        *p = v;
    return v;
}
int gettimeofday(struct timeval *tv, void *) noexcept
{
    if (g_clock_on)
    {
        tv->tv_sec = g_now / 1000000;
        tv->tv_usec = g_now % 1000000;
        return 0;
    }
    struct timespec t;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
int clock_gettime(clockid_t ck, struct timespec *t) noexcept
{
    if (g_clock_on && (ck == CLOCK_REALTIME || ck == CLOCK_MONOTONIC || ck == CLOCK_REALTIME_COARSE ||
                       ck == CLOCK_MONOTONIC_COARSE || ck == CLOCK_MONOTONIC_RAW || ck == CLOCK_BOOTTIME))
    {
        uint64_t n = g_now;
        if (ck != CLOCK_REALTIME && ck != CLOCK_REALTIME_COARSE)
            n -= MONO_BASE;
        t->tv_sec = n / 1000000;
        t->tv_nsec = (n % 1000000) * 1000;
        return 0;
    }
    return syscall(SYS_clock_gettime, ck, t);
}
}
