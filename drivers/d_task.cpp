// CTask under the controlled scheduler.
#include "vrt.h"
#include "dutil.h"
#include <unistd.h>
#include <string.h>
#include "CTask.h"
using namespace vrt;
static int g_id, g_n, g_left;
static bool g_all;
static std::vector<int> g_held; // tasks that wait to be let go
static std::vector<char> g_go;
static Rng R(1);
struct Pool;
static Pool *g_pool;
static void dispatch();
static bool open_(void *p) { return g_all || g_go[(long)p]; }
struct Pool : lce::CTask
{
    void onWork(int ty, void *d, int w)
    {
        int id = (int)(long)d;
        emit("{\"e\":\"Work\",\"w\":%d,\"id\":%d,\"type\":%d}", w, id, ty);
        for (int i = R.below(6); i > 0; i--)
            point();
        if (R.chance(1, 4))
        {
            nopreempt(1);
            g_held.push_back(id);
            nopreempt(-1);
            wait_until(open_, (void *)(long)id, -1, "task", false);
        }
        if (g_left > 0 && R.chance(1, 5))
            ::dispatch();
        if (R.chance(1, 6))
            usleep(R.below(3000));
        emit("{\"e\":\"Done\",\"w\":%d,\"id\":%d}", w, id);
    }
};
static void dispatch()
{
    nopreempt(1);
    int id = ++g_id;
    g_left--;
    g_go.resize(g_id + 1, 0);
    emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"dispatch\",\"id\":%d}", self_id(), id);
    nopreempt(-1);
    int r = g_pool->dispatch(id % 5, (void *)(long)id);
    emit("{\"e\":\"Ret\",\"t\":%d,\"r\":%d}", self_id(), r);
}
static void sender(void *p)
{
    for (int i = (int)(long)p; i > 0; i--)
        dispatch();
}
static void quiet()
{
    idle();
    emit("{\"e\":\"Quiet\"}");
}
static void let_go()
{
    nopreempt(1);
    if (!g_held.empty())
    {
        int k = R.below(g_held.size());
        g_go[g_held[k]] = 1;
        g_held.erase(g_held.begin() + k);
    }
    nopreempt(-1);
}
static void hist(int h, Rng &rng)
{
    R = Rng(rng.next());
    set_now_us(T0_US);
    g_n = R.range(1, 4);
    int max = R.chance(1, 8) ? 100 : R.range(1, 5);
    g_left = R.below(10);
    g_pool = new Pool;
    SchedOpts o = random_opts(R, true);
    emit("{\"e\":\"Reset\",\"max\":%d,\"n\":%d}", max, g_n);
    sched_start(o);
    g_pool->init(g_n, max);
    if (R.chance(1, 4))
        for (int i = R.range(1, max + 1); i > 0; i--)
            ::dispatch();
    emit("{\"e\":\"Run\"}");
    g_pool->run();
    int first = nthreads();
    for (int i = R.range(1, 3); i > 0; i--)
        spawn(sender, (void *)(long)R.range(1, 5));
    bool stop = R.chance(1, 2);
    int when = R.below(6);
    for (int i = 0; i < 40; i++)
    {
        if (stop && i == when)
        {
            if (R.chance(1, 2))
                for (int k = R.below(20); k > 0; k--)
                    point();
            emit("{\"e\":\"Stop\"}");
            g_pool->stop();
            emit("{\"e\":\"StopRet\"}");
            if (R.chance(1, 2))
                ::dispatch();
        }
        if (R.chance(2, 3))
            quiet();
        let_go();
        if (R.chance(1, 8))
            ::dispatch();
        advance_us(R.below(4000));
        bool busy = false;
        for (int t = 1; t < nthreads(); t++)
            if (!finished(t) && t >= first)
                busy = true;
        if (!busy && g_held.empty() && i > when && R.chance(1, 3))
            break;
    }
    g_all = true;
    for (bool again = true; again;)
    {
        idle();
        again = false;
        for (int t = 1; t < nthreads(); t++)
            if (!finished(t) && !strcmp(why(t), "sleep"))
                again = true;
        advance_us(10000);
    }
    quiet();
    int alive = 0;
    for (int t = 1; t < first; t++)
        if (!finished(t))
            alive++;
    emit("{\"e\":\"End\",\"alive\":%d}", alive);
}
int main(int argc, char **argv) { return run_histories(argc, argv, hist); }
