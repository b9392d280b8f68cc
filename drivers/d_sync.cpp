// Locks, read-write locks and conditions: random programs of several threads under the controlled scheduler.
#include "vrt.h"
#include "dutil.h"
#include <string.h>
#include <time.h>
#include <unistd.h>
#include "CLock.h"
using namespace vrt;

static lce::CMutex *g_m[2];
static lce::CSpinLock *g_s;
static lce::CReadWriteLock *g_rw;
static lce::Condition *g_c[2];
static int g_nops, g_style;
static int g_calls;
static int now() { return (int)(now_us() - T0_US); }
static void call(const char *op, int a, int m = 0, int d = 0)
{
    g_calls++;
    emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"%s\",\"a\":%d,\"m\":%d,\"d\":%d,\"now\":%d}", self_id(), op, a, m, d, now());
}
static bool ret(bool r)
{
    g_calls++;
    emit("{\"e\":\"Ret\",\"t\":%d,\"r\":%d,\"now\":%d}", self_id(), r ? 1 : 0, now());
    return r;
}
static lce::CLock *lockof(int k) { return k == 3 ? (lce::CLock *)g_s : (lce::CLock *)g_m[k - 1]; }
struct W
{
    Rng r;
    bool held[4];
    int rw;
    explicit W(uint64_t s) : r(s), rw(0) { memset(held, 0, sizeof held); }
    void unlock(int k)
    {
        call("unlock", k);
        ret(lockof(k)->unlock());
        held[k] = false;
    }
    int higher()
    {
        for (int k = 3; k > 0; k--)
            if (held[k])
                return k;
        return 0;
    }
    void sleep()
    {
        static const int us[] = {1000, 20000, 250000, 900000, 1700000};
        int d = us[r.below(5)];
        call("sleep", d);
        usleep(d);
        ret(true);
    }
    void wait(int c)
    {
        static const int ms[] = {1, 7, 120, 400, 900, 999, 1000, 1001, 1500, 2750, 5000};
        if (g_style != 1 && r.chance(1, 3))
        {
            call("wait", c, c, -1);
            ret(g_c[c - 1]->wait(*g_m[c - 1]));
        }
        else
        {
            int d = ms[r.below(11)];
            call("wait", c, c, d);
            ret(g_c[c - 1]->wait(*g_m[c - 1], d));
        }
    }
    void scoped(int k, int depth)
    {
        call("lock", k);
        {
            lce::CAutoLock a(*lockof(k));
            ret(true);
            held[k] = true;
            for (int i = r.below(3); i > 0; i--)
                op(depth + 1);
            // what was taken inside is given back inside
            for (int j = 1; j < 4; j++)
                if (j > k && held[j])
                    unlock(j);
            call("unlock", k);
        }
        ret(true);
        held[k] = false;
    }
    void op(int depth)
    {
        int o = r.below(24), top = higher();
        if (o < 7)
        {
            int k = r.range(1, 3);
            if (held[k])
            {
                if (depth == 0)
                    unlock(k);
                return;
            }
            if (k < top && !(depth == 0 && r.chance(1, 8)))
            {
                call("try", k);
                held[k] = ret(lockof(k)->tryLock());
                if (held[k] && depth)
                    unlock(k);
                return;
            }
            if (o < 3)
            {
                call("lock", k);
                held[k] = ret(lockof(k)->lock());
                if (depth)
                    unlock(k);
            }
            else if (o < 5 && depth < 2)
                scoped(k, depth);
            else
            {
                call("try", k);
                held[k] = ret(lockof(k)->tryLock());
                if (held[k] && depth)
                    unlock(k);
            }
        }
        else if (o < 12)
        {
            if (rw)
            {
                call("rwunlock", 0);
                ret(g_rw->unlock());
                rw = 0;
            }
            else if (o == 7 || o == 8)
            {
                call("rlock", 0);
                rw = ret(g_rw->readLock());
            }
            else if (o == 9)
            {
                call("wlock", 0);
                rw = ret(g_rw->writeLock());
            }
            else if (o == 10)
            {
                call("tryr", 0);
                rw = ret(g_rw->tryReadLock());
            }
            else
            {
                call("tryw", 0);
                rw = ret(g_rw->tryWriteLock());
            }
        }
        else if (o < 17)
        {
            int c = r.range(1, 2);
            bool mine = held[c];
            if (!mine)
            {
                if (depth || c < top)
                    return;
                call("lock", c);
                held[c] = ret(lockof(c)->lock());
            }
            wait(c);
            if (!mine && r.chance(2, 3))
                unlock(c);
        }
        else if (o < 20)
        {
            int c = r.range(1, 2);
            call("signal", c);
            ret(g_c[c - 1]->signal());
        }
        else if (o == 20)
        {
            int c = r.range(1, 2);
            call("broadcast", c);
            ret(g_c[c - 1]->broadcast());
        }
        else
            sleep();
    }
    void run()
    {
        for (int i = 0; i < g_nops; i++)
            op(0);
        for (int k = 3; k > 0; k--)
            if (held[k])
                unlock(k);
        if (rw)
        {
            call("rwunlock", 0);
            ret(g_rw->unlock());
        }
    }
};
static void worker(void *p) { ((W *)p)->run(); }
static void hist(int, Rng &rng)
{
    SchedOpts o = random_opts(rng, true);
    g_nops = rng.range(2, 7);
    g_style = rng.below(3);
    sched_start(o);
    advance_us(rng.below(1000000));
    nopreempt(1);
    emit("{\"e\":\"Reset\",\"now\":%d,\"spur\":%d}", now(), o.spurious_den ? 1 : 0);
    for (int i = 0; i < 2; i++)
        g_m[i] = new lce::CMutex, g_c[i] = new lce::Condition;
    g_s = new lce::CSpinLock;
    g_rw = new lce::CReadWriteLock;
    int nt = rng.range(1, 4);
    for (int i = 0; i < nt; i++)
        spawn(worker, new W(rng.next()));
    nopreempt(-1);
    nopreempt(1);
    int seen;
    do // until nothing has happened for longer than any call may take
    {
        seen = g_calls;
        usleep(20000000);
        idle();
    } while (seen != g_calls);
    std::string s;
    for (int i = 1; i <= nt; i++)
        if (!finished(i))
            s += (s.empty() ? "" : ",") + std::to_string(i);
    emit("{\"e\":\"End\",\"alive\":[%s],\"now\":%d}", s.c_str(), now());
}
int main(int argc, char **argv) { return run_histories(argc, argv, hist); }
