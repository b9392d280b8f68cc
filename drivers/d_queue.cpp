// mode "block": CBlockQueue under the controlled scheduler; "spsc": CCircleQueue; "blockseq"/"circseq":
// one thread, many operations
#include "vrt.h"
#include "dutil.h"
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <iostream>
#include "CBlockQueue.h"
#include "CCircleQueue.h"
using namespace vrt;
struct Item
{
    int a, b; // b = ~a * 3: a torn copy shows
    Item(int x = 0) : a(x), b(x * 7 + 3) {}
    int v() const { return b == a * 7 + 3 ? a : -100000 - a % 1000; }
};
typedef lce::CBlockQueue<Item> BQ;
typedef lce::CCircleQueue<Item> CQ;
static BQ *g_b;
static CQ *g_c;
static int g_v, g_n;
static int now() { return (int)(now_ms() - T0_US / 1000); }
#define CALL(...) emit("{\"e\":\"Call\",\"t\":%d," __VA_ARGS__)
static void push(int v)
{
    emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"push\",\"v\":%d}", self_id(), v);
    g_b->push(Item(v));
    emit("{\"e\":\"Ret\",\"t\":%d,\"r\":0}", self_id());
}
static void pop()
{
    Item i;
    emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"pop\"}", self_id());
    g_b->pop(i);
    emit("{\"e\":\"Ret\",\"t\":%d,\"r\":[1,%d]}", self_id(), i.v());
}
static int tpop(int ms)
{
    Item i;
    int t0 = now();
    emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"tpop\",\"ms\":%d,\"now\":%d}", self_id(), ms, t0);
    bool r = g_b->pop(i, ms);
    int t1 = now();
    emit("{\"e\":\"Ret\",\"t\":%d,\"r\":[%d,%d,%d]}", self_id(), r, r ? i.v() : 0, t1);
    return r ? -1 : t1 - t0;
}
static void q_front(bool back)
{
    Item i;
    emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"%s\"}", self_id(), back ? "back" : "front");
    bool r = back ? g_b->back(i) : g_b->front(i);
    emit("{\"e\":\"Ret\",\"t\":%d,\"r\":[%d,%d]}", self_id(), r, r ? i.v() : 0);
}
static void query(int k)
{
    static const char *n[] = {"size", "empty", "full", "max", "clear"};
    emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"%s\"}", self_id(), n[k]);
    int r = 0;
    if (k == 0)
        r = g_b->size();
    else if (k == 1)
        r = g_b->empty();
    else if (k == 2)
        r = g_b->full();
    else if (k == 3)
        r = g_b->max_size();
    else
        g_b->clear();
    emit("{\"e\":\"Ret\",\"t\":%d,\"r\":%d}", self_id(), r);
}
struct WArg
{
    Rng r;
    int role;
};
static void bworker(void *p)
{
    WArg &w = *(WArg *)p;
    for (int i = 0; i < g_n; i++)
    {
        int o = w.r.below(20);
        if (w.role == 0) // producer
            o < 16 ? push(++g_v) : o < 17 ? q_front(true) : o == 18 ? query(w.r.below(4)) : q_front(false);
        else if (w.role == 1)
        {
            if (o < 11)
                pop();
            else if (o < 16)
                tpop(w.r.range(1, 3000));
            else if (o < 18)
                q_front(false);
            else
                query(w.r.below(4));
        }
        else // mixed
        {
            if (o < 6)
                push(++g_v);
            else if (o < 12)
                tpop(w.r.range(0, 1500));
            else if (o < 14)
                pop();
            else if (o < 16)
                q_front(w.r.chance(1, 2));
            else if (o == 19)
                query(4);
            else
                query(w.r.below(4));
        }
    }
}
static void cprod(void *p)
{
    WArg &w = *(WArg *)p;
    for (int i = 0; i < g_n; i++)
    {
        int o = w.r.below(12);
        if (o < 10)
        {
            int v = ++g_v;
            emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"trypush\",\"v\":%d}", self_id(), v);
            bool r = g_c->enque(Item(v));
            emit("{\"e\":\"Ret\",\"t\":%d,\"r\":%d}", self_id(), r);
        }
        else
        {
            emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"%s\"}", self_id(), o == 10 ? "full" : "empty");
            int r = o == 10 ? g_c->full() : g_c->empty();
            emit("{\"e\":\"Ret\",\"t\":%d,\"r\":%d}", self_id(), r);
        }
    }
}
static void ccons(void *p)
{
    WArg &w = *(WArg *)p;
    for (int i = 0; i < g_n; i++)
    {
        int o = w.r.below(12);
        if (o < 10)
        {
            Item it;
            emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"trypop\"}", self_id());
            bool r = g_c->deque(it);
            emit("{\"e\":\"Ret\",\"t\":%d,\"r\":[%d,%d]}", self_id(), r, r ? it.v() : 0);
        }
        else
        {
            emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"%s\"}", self_id(), o == 10 ? "full" : "empty");
            int r = o == 10 ? g_c->full() : g_c->empty();
            emit("{\"e\":\"Ret\",\"t\":%d,\"r\":%d}", self_id(), r);
        }
    }
}
static void hist(int h, Rng &rng)
{
    int cap = rng.chance(1, 4) ? rng.range(1, 20) : rng.range(1, 3);
    set_now_us(T0_US + rng.below(1000000));
    if (g_mode == "blockseq" || g_mode == "circseq")
    {
        bool deflt = rng.chance(1, 10);
        if (deflt)
            cap = 1000;
        emit("{\"e\":\"Reset\",\"cap\":%d}", cap);
        sched_start(SchedOpts());
        if (g_mode == "blockseq")
        {
            g_b = deflt ? (rng.chance(1, 2) ? new BQ() : new BQ(-rng.range(0, 5))) : new BQ(cap);
            int n = rng.range(10, deflt ? 1200 : 80), len = 0, bias = rng.below(3);
            for (int i = 0; i < n; i++)
            {
                int o = rng.below(24);
                if (deflt && i < 1005)
                    o = 0;
                if (o < 7 + 2 * bias && len < cap)
                    push(++g_v), len++;
                else if (o < 12 && len)
                    pop(), len--;
                else if (o < 15)
                {
                    int ms = rng.chance(1, 3) ? rng.range(0, 9) * 500 : rng.range(0, 5000);
                    int w = tpop(ms);
                    if (w < 0)
                        len--;
                    else
                        emit("{\"e\":\"Exact\",\"ms\":%d,\"waited\":%d}", ms, w);
                    advance_us(rng.below(2000000));
                }
                else if (o < 19)
                    q_front(o & 1);
                else if (o < 23)
                    query(o - 19);
                else if (rng.chance(1, 4))
                    query(4), len = 0;
            }
            while (len)
                pop(), len--;
            delete g_b;
        }
        else
        {
            g_c = new CQ;
            if (deflt)
                rng.chance(1, 2) ? g_c->init() : g_c->init(0);
            else
                g_c->init(cap);
            WArg w = {Rng(rng.next()), 0};
            for (int i = 0; i < 12; i++)
            {
                g_n = rng.range(0, deflt ? 400 : 2 * cap);
                cprod(&w);
                g_n = rng.range(0, deflt ? 200 : 2 * cap);
                ccons(&w);
            }
            delete g_c;
        }
        emit("{\"e\":\"End\"}");
        return;
    }
    SchedOpts o = random_opts(rng, true, true);
    emit("{\"e\":\"Reset\",\"cap\":%d}", cap);
    sched_start(o);
    if (g_mode == "spsc")
    {
        g_c = new CQ;
        g_c->init(cap);
        g_n = rng.range(3, 12);
        WArg *a = new WArg{Rng(rng.next()), 0}, *b = new WArg{Rng(rng.next()), 1};
        spawn(cprod, a);
        spawn(ccons, b);
        idle();
        if (!finished(1) || !finished(2))
            stuck("Stuck");
        g_n = 2 * cap + 2;
        ccons(b);
        emit("{\"e\":\"End\"}");
        return;
    }
    g_b = new BQ(cap);
    g_n = rng.range(2, 5);
    int nt = rng.range(2, 5);
    for (int i = 0; i < nt; i++)
    {
        WArg *w = new WArg{Rng(rng.next()), i == 0 ? 0 : (int)rng.below(3)};
        spawn(bworker, w);
    }
    // let them go until they are done; release who is blocked, having recorded that he is
    g_auto_time = true;
    for (int round = 0; round < 200; round++)
    {
        idle();
        bool any = false, popb = false, timedb = false;
        for (int i = 1; i <= nt; i++)
            if (!finished(i))
                any = true;
        if (!any)
            break;
        emit("{\"e\":\"Quiet\"}");
        if (rng.chance(1, 3))
            advance_us(3100000); // lets the timed pops run out
        else if (rng.chance(1, 12))
            query(4);
        else
        {
            nopreempt(1);
            if (g_b->size() > 0)
                pop();
            else
                push(++g_v);
            nopreempt(-1);
        }
    }
    for (int i = 1; i <= nt; i++)
        if (!finished(i))
            stuck("Stuck");
    while (g_b->size() > 0)
        pop();
    tpop(5);
    emit("{\"e\":\"End\"}");
}
int main(int argc, char **argv) { return run_histories(argc, argv, hist); }
