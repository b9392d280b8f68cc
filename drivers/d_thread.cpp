// Thread objects and singletons: random owners, random run() bodies, under the controlled scheduler.
#include "vrt.h"
#include "dutil.h"
#include <signal.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include "CThread.h"
#include "CSingleton.h"
using namespace vrt;

static void call(const char *op, int o, int f = 0)
{
    emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"%s\",\"o\":%d,\"f\":%d}", self_id(), op, o, f);
}
static int ret(int r)
{
    emit("{\"e\":\"Ret\",\"t\":%d,\"r\":%d}", self_id(), r);
    return r;
}
struct RunEnd // also when the thread is cancelled
{
    int o;
    bool cut;
    bool *over;
    ~RunEnd()
    {
        *over = true;
        emit("{\"e\":\"RunE\",\"t\":%d,\"o\":%d,\"cut\":%d}", self_id(), o, cut ? 1 : 0);
    }
};
struct Demo : lce::CThread
{
    int no, owner, kind, steps;
    bool over;
    Rng r;
    bool asks() { return call("stopped", no), ret(isStoped() ? 1 : 0); }
    int run()
    {
        sigset_t m;
        sigemptyset(&m);
        pthread_sigmask(SIG_BLOCK, 0, &m);
        emit("{\"e\":\"RunB\",\"t\":%d,\"o\":%d,\"own\":%d,\"sig\":%d}", self_id(), no, self_id() > owner ? 1 : 0,
             sigismember(&m, SIGPIPE) == 1 ? 1 : 0);
        RunEnd e = {no, true, &over};
        if (kind == 0) // until told to stop
            while (!asks())
            {
                if (r.chance(1, 2))
                    usleep(1000 * r.range(1, 50));
                else
                    point();
            }
        else if (kind == 1) // stops only by being cancelled
            for (;;)
                usleep(1000 * r.range(1, 50));
        else
            for (int i = 0; i < steps; i++)
                switch (r.below(5))
                {
                case 0:
                    asks();
                    break;
                case 1:
                    usleep(1000 * r.range(1, 50));
                    break;
                case 2:
                    if (r.chance(1, 4))
                    {
                        call("stop", no);
                        ret(stop());
                        break;
                    }
                default:
                    point();
                }
        e.cut = false;
        return 0;
    }
};
static int g_nops;
template <int K> struct Single
{
    int a, b, c;
    static Single *at;
    Single() : a(0), b(0), c(0)
    {
        emit("{\"e\":\"Making\",\"o\":%d}", K);
        at = this;
        a = 17 * K;
        point();
        b = 18 * K;
        point();
        c = 19 * K;
        emit("{\"e\":\"Made\",\"o\":%d}", K);
    }
};
template <int K> Single<K> *Single<K>::at = 0;
template <int K> static void get()
{
    call("get", K);
    Single<K> &s = lce::CSingleton<Single<K> >::getInstance();
    ret(&s == Single<K>::at && s.a == 17 * K && s.b == 18 * K && s.c == 19 * K ? 1 : 0);
}
struct W
{
    int no;
    bool owner;
    Rng r;
    void any()
    {
        if (r.chance(1, 3))
            r.chance(1, 2) ? get<1>() : get<2>();
        else if (r.chance(1, 2))
            usleep(1000 * r.range(1, 60));
        else
            point();
    }
    void run()
    {
        if (!owner)
        {
            for (int i = 0; i < g_nops; i++)
                any();
            return;
        }
        Demo *d = new Demo;
        d->no = no, d->owner = self_id();
        bool live = false, det = false; // live: started and not joined
        for (int i = 0; i < g_nops; i++)
        {
            int o = r.below(10);
            if (o < 4 && (!live || (det && d->over)))
            {
                d->kind = r.below(3), d->steps = r.range(0, 5), d->over = false, d->r = Rng(r.next());
                d->owner = nthreads() - 1;
                bool f = !live && r.chance(1, 8);
                nopreempt(1);
                call("start", no, f);
                g_create_fail = f ? 1 : 0;
                if (!f)
                    nopreempt(-1);
                int rc = d->start();
                if (f) // until it has met the failure it is given
                    nopreempt(-1);
                ret(rc);
                if (rc == 0)
                    live = true, det = false;
            }
            else if (o == 4)
            {
                if (live && det && d->kind == 2)
                    continue; // it may end at any time, and its handle with it
                call("stop", no);
                ret(d->stop());
            }
            else if (o == 5)
            {
                call("stopped", no);
                ret(d->isStoped() ? 1 : 0);
            }
            else if (o < 8)
            {
                if (live && det)
                    continue;
                if (live && (d->kind != 2 || r.chance(1, 3)))
                {
                    call("stop", no);
                    ret(d->stop());
                }
                call("join", no);
                if (ret(d->join()) == 0)
                    live = false;
            }
            else if (o == 8)
            {
                if (!live || det || !r.chance(1, 3))
                    continue;
                call("detach", no);
                ret(d->detach());
                det = true;
            }
            else if (!live || (d->over && !det))
            {
                call("delete", no);
                delete d;
                ret(0);
                d = new Demo;
                d->no = no;
                live = false;
            }
            if (r.chance(1, 3))
                any();
        }
        if (live && !det)
        {
            call("stop", no);
            ret(d->stop());
            call("join", no);
            ret(d->join());
        }
        else if (live && d->kind != 2)
        {
            call("stop", no);
            ret(d->stop());
        }
    }
};
static void worker(void *p) { ((W *)p)->run(); }
static void hist(int, Rng &rng)
{
    SchedOpts o = random_opts(rng, true);
    o.spurious_den = 0;
    g_nops = rng.range(2, 10);
    sched_start(o);
    g_flag_handles = true;
    nopreempt(1);
    emit("{\"e\":\"Reset\"}");
    int owners = rng.range(0, 3), users = rng.range(owners ? 0 : 2, 3);
    for (int i = 0; i < owners + users; i++)
        spawn(worker, new W{i + 1, i < owners, Rng(rng.next())});
    usleep(100000000);
    idle();
    for (int i = 1; i <= owners + users; i++)
        if (!finished(i))
            stuck("Stuck");
    usleep(100000000);
    idle();
    emit("{\"e\":\"End\"}");
}
int main(int argc, char **argv) { return run_histories(argc, argv, hist); }
