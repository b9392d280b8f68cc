// CBufferQueue: scripts from the specification, random sequential histories, one producer and one consumer under the
// controlled scheduler, and either of them dying at any memory access.
#include "vrt.h"
#include "dutil.h"
#include <string.h>
#include <stdexcept>
#include <iostream>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <assert.h>
// copies are made byte by byte, with a possible switch between the bytes
static void *vmemcpy(void *d, const void *s, size_t n)
{
    volatile char *a = (volatile char *)d;
    const volatile char *b = (const volatile char *)s;
    for (size_t i = 0; i < n; i++)
        a[i] = b[i];
    return d;
}
namespace std
{
using ::vmemcpy;
}
#define memcpy vmemcpy
#include "CBufferQueue.h"
#undef memcpy
using namespace vrt;
typedef lce::CBufferQueue Q;
static const int HDR = 5 * sizeof(unsigned long);
static char *g_mem, *g_block;
static long g_len;
static const int GUARD = 64;
static Q *g_p, *g_c; // the producer's and the consumer's view of the block
static void block(int room)
{
    g_len = room + HDR;
    g_mem = (char *)malloc(g_len + 2 * GUARD);
    memset(g_mem, 0x5a, g_len + 2 * GUARD);
    g_block = g_mem + GUARD;
    g_p = new Q;
    g_p->create(g_block, g_len);
    g_c = new Q;
    g_c->attach(g_block, g_len);
}
static int guard()
{
    for (int i = 0; i < GUARD; i++)
        if (g_mem[i] != 0x5a || g_mem[GUARD + g_len + i] != 0x5a)
            return 0;
    return 1;
}
static void end() { emit("{\"e\":\"End\",\"guard\":%d}", guard()); }
static std::string rec(Rng &r, int n)
{
    std::string s(n, 0);
    for (int i = 0; i < n; i++)
        s[i] = (char)r.below(256);
    return s;
}
static void push(Q *q, const std::string &s, int split)
{
    emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"push\",\"p\":%s}", self_id(), hexs(s.data(), s.size()).c_str());
    int r = 1;
    std::string a = s.substr(0, split < 0 ? 0 : split), b = s.substr(split < 0 ? 0 : split);
    char *x = (char *)malloc(a.size() + 1), *y = (char *)malloc(b.size() + 1);
    memcpy(x, a.data(), a.size());
    memcpy(y, b.data(), b.size());
    try
    {
        if (split < 0)
            q->push(y, b.size());
        else
            q->push(x, a.size(), y, b.size());
    }
    catch (std::runtime_error &e)
    {
        r = 0;
    }
    free(x);
    free(y);
    emit("{\"e\":\"Ret\",\"t\":%d,\"r\":%d}", self_id(), r);
}
static int pop(Q *q, int space, int split)
{
    int s1 = split < 0 ? space : split, s2 = space - s1;
    if (split < 0)
        emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"pop\",\"space\":%d}", self_id(), space);
    else
        emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"pop2\",\"s1\":%d,\"s2\":%d}", self_id(), s1, s2);
    char *a = (char *)malloc(s1 + 8), *b = (char *)malloc(s2 + 8);
    memset(a, 0x77, s1 + 8);
    memset(b, 0x77, s2 + 8);
    unsigned long n1 = s1, n2 = s2;
    int r;
    try
    {
        r = split < 0 ? q->pop(a, n1) : q->pop(a, n1, b, n2);
    }
    catch (std::runtime_error &e)
    {
        r = -1;
    }
    for (int i = 0; i < 8; i++)
        if (a[s1 + i] != 0x77 || b[s2 + i] != 0x77)
            emit("{\"e\":\"Overrun\"}");
    if (r == 1 && (n1 > (unsigned long)s1 || (split >= 0 && n2 > (unsigned long)s2)))
        emit("{\"e\":\"BadLength\"}");
    else if (r == 1 && split < 0)
        emit("{\"e\":\"Ret\",\"t\":%d,\"r\":[1,%s]}", self_id(), hexs(a, n1).c_str());
    else if (r == 1)
        emit("{\"e\":\"Ret\",\"t\":%d,\"r\":[1,%s,%s]}", self_id(), hexs(a, n1).c_str(), hexs(b, n2).c_str());
    else
        emit("{\"e\":\"Ret\",\"t\":%d,\"r\":[%d]}", self_id(), r);
    free(a);
    free(b);
    return r;
}
static void ask(Q *q, int what, int n)
{
    if (what == 0)
    {
        emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"full\",\"n\":%d}", self_id(), n);
        int r = q->full(n);
        emit("{\"e\":\"Ret\",\"t\":%d,\"r\":%d}", self_id(), r);
    }
    else if (what == 1)
    {
        emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"empty\"}", self_id());
        int r = q->empty();
        emit("{\"e\":\"Ret\",\"t\":%d,\"r\":%d}", self_id(), r);
    }
    else
    {
        emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"size\"}", self_id());
        int r = (int)q->size();
        emit("{\"e\":\"Ret\",\"t\":%d,\"r\":%d}", self_id(), r);
    }
}
static void attach(long diff)
{
    emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"attach\",\"same\":%d}", self_id(), diff == 0);
    Q *q = new Q;
    int r = 1;
    try
    {
        q->attach(g_block, g_len + diff);
    }
    catch (std::runtime_error &)
    {
        r = 0;
    }
    emit("{\"e\":\"Ret\",\"t\":%d,\"r\":%d}", self_id(), r);
    if (r && diff == 0)
        g_c = q;
}
struct Arg
{
    Rng r;
    int n, room, die;
};
static int size_for(Rng &r, int room)
{
    int m = room - 16;
    return r.chance(1, 12) ? 0 : r.chance(1, 3) ? r.range(1, m < 8 ? m : 8) : r.chance(1, 10) ? m + (int)r.below(3) : r.range(1, m < 1 ? 1 : r.chance(1, 2) ? (m + 1) / 2 : m);
}
static void producer(void *p)
{
    Arg *a = (Arg *)p;
    if (a->die)
        kill_after(a->die);
    for (int i = 0; i < a->n; i++)
    {
        int n = size_for(a->r, a->room);
        std::string s = rec(a->r, n);
        push(g_p, s, a->r.chance(1, 3) ? a->r.range(0, n) : -1);
        if (a->r.chance(1, 6))
            ask(g_p, 0, size_for(a->r, a->room));
    }
    kill_after(0);
}
static void consumer(void *p)
{
    Arg *a = (Arg *)p;
    if (a->die)
        kill_after(a->die);
    for (int i = 0; i < a->n; i++)
    {
        int n = a->r.chance(1, 6) ? size_for(a->r, a->room) : a->room;
        pop(g_c, n, a->r.chance(1, 3) ? a->r.range(0, n) : -1);
        if (a->r.chance(1, 6))
            ask(g_c, 1, 0);
    }
    kill_after(0);
}
static void hist(int h, Rng &rng)
{
    if (g_mode == "script")
    {
        std::vector<std::string> w = words(script_line(h));
        int room = atoi(w[0].c_str());
        block(room);
        emit("{\"e\":\"Reset\",\"room\":%d}", room);
        sched_start(SchedOpts());
        for (size_t i = 1; i < w.size(); i++)
        {
            if (w[i] == "push")
                push(g_p, rec(rng, atoi(w[++i].c_str())), -1);
            else if (w[i] == "push2")
            {
                int n = atoi(w[++i].c_str()), k = atoi(w[++i].c_str());
                push(g_p, rec(rng, n), k);
            }
            else if (w[i] == "pop")
                pop(g_c, atoi(w[++i].c_str()), -1);
            else if (w[i] == "pop2")
            {
                int n = atoi(w[++i].c_str()), k = atoi(w[++i].c_str());
                pop(g_c, n, k);
            }
            else if (w[i] == "full")
                ask(g_p, 0, atoi(w[++i].c_str()));
            if (rng.chance(1, 5))
                ask(g_c, 1 + rng.below(2), 0);
        }
        end();
        return;
    }
    int room = rng.chance(1, 3) ? rng.range(17, 30) : rng.chance(1, 2) ? rng.range(17, 120) : rng.range(100, 1000);
    block(room);
    emit("{\"e\":\"Reset\",\"room\":%d}", room);
    if (g_mode == "seq")
    {
        sched_start(SchedOpts());
        int n = rng.range(20, 150), bias = rng.below(3);
        for (int i = 0; i < n; i++)
        {
            int o = rng.below(20);
            if (o < 7 + bias)
            {
                int k = size_for(rng, room);
                push(rng.chance(1, 4) ? g_c : g_p, rec(rng, k), rng.chance(1, 3) ? rng.range(0, k) : -1);
            }
            else if (o < 14)
            {
                int k = rng.chance(1, 5) ? size_for(rng, room) : room;
                pop(rng.chance(1, 4) ? g_p : g_c, k, rng.chance(1, 3) ? rng.range(0, k) : -1);
            }
            else if (o < 18)
                ask(rng.chance(1, 2) ? g_p : g_c, o - 15 < 0 ? 0 : o - 15, size_for(rng, room));
            else if (o == 18)
                attach(rng.chance(1, 2) ? 0 : rng.chance(1, 2) ? rng.range(1, 64) : -rng.range(1, room - 16));
            else if (rng.chance(1, 6))
            {
                emit("{\"e\":\"Call\",\"t\":0,\"op\":\"create\",\"room\":%d}", room);
                g_p->create(g_block, g_len);
                emit("{\"e\":\"Ret\",\"t\":0,\"r\":1}");
            }
        }
        end();
        return;
    }
    // two threads
    SchedOpts o = random_opts(rng, true);
    o.spurious_den = 0;
    bool die = g_mode == "die";
    int np = rng.range(3, 10), nc = rng.range(3, 10);
    Arg *a = new Arg{Rng(rng.next()), np, room > 200 ? 120 : room, 0}, *b = new Arg{Rng(rng.next()), nc, room, 0};
    if (die)
        (rng.chance(1, 2) ? a : b)->die = rng.range(1, rng.chance(1, 2) ? 60 : 900);
    sched_start(o);
    spawn(producer, a);
    spawn(consumer, b);
    idle();
    // the one who is left (or a successor) goes on; the block is as usable as ever
    kill_after(0);
    if (die)
        attach(0);
    while (pop(g_c, room, -1) == 1)
        ;
    for (int i = 0; i < 4; i++)
    {
        int k = size_for(rng, room);
        push(g_p, rec(rng, k), -1);
    }
    while (pop(g_c, room, -1) == 1)
        ;
    end();
}
int main(int argc, char **argv) { return run_histories(argc, argv, hist); }
