// LRU cache: mode "script" replays TLC's behaviours sequentially, "seq" large random sequential
// histories, "conc" several threads under the controlled scheduler.
#include "vrt.h"
#include "dutil.h"
#include "CLruCache.h"
using namespace vrt;

struct ICache
{
    virtual ~ICache() {}
    virtual void set(int k, int v, int x) = 0;
    virtual bool get(int k, int &v) = 0;
    virtual void del(int k) = 0;
    virtual void clear() = 0;
    virtual int size() = 0;
    virtual int maxsize() = 0;
};
template <class C> struct IntCache : ICache
{
    C c;
    IntCache(int n) : c(n) {}
    void set(int k, int v, int x) { x ? c.set(k, v, x) : c.set(k, v); }
    bool get(int k, int &v) { return c.get(k, v); }
    void del(int k) { c.del(k); }
    void clear() { c.clear(); }
    int size() { return (int)c.getSize(); }
    int maxsize() { return (int)c.getMaxSize(); }
};
template <class C> struct StrCache : ICache
{
    C c;
    StrCache(int n) : c(n) {}
    static std::string ks(int k) { return "key-" + std::to_string(k) + std::string(k % 5, 'x'); }
    void set(int k, int v, int x) { c.set(ks(k), "v" + std::to_string(v), x); }
    bool get(int k, int &v)
    {
        std::string s;
        bool r = c.get(ks(k), s);
        if (r)
            v = s.size() > 1 && s[0] == 'v' ? atoi(s.c_str() + 1) : -1;
        return r;
    }
    void del(int k) { c.del(ks(k)); }
    void clear() { c.clear(); }
    int size() { return (int)c.getSize(); }
    int maxsize() { return (int)c.getMaxSize(); }
};
static ICache *g_c;
static bool g_v2;
static ICache *make(bool v2, bool str, int cap)
{
    if (v2)
        return str ? (ICache *)new StrCache<lce::CLruCacheV2<std::string, std::string> >(cap)
                   : (ICache *)new IntCache<lce::CLruCacheV2<int, int> >(cap);
    return str ? (ICache *)new StrCache<lce::CLruCache<std::string, std::string> >(cap)
               : (ICache *)new IntCache<lce::CLruCache<int, int> >(cap);
}
static void do_set(int k, int v, int x)
{
    emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"set\",\"k\":%d,\"v\":%d,\"x\":%d}", self_id(), k, v, x);
    g_c->set(k, v, x);
    emit("{\"e\":\"Ret\",\"t\":%d,\"r\":0}", self_id());
}
static void do_get(int k)
{
    int v = 0;
    emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"get\",\"k\":%d}", self_id(), k);
    bool r = g_c->get(k, v);
    emit("{\"e\":\"Ret\",\"t\":%d,\"r\":[%d,%d]}", self_id(), r ? 1 : 0, r ? v : 0);
}
static void do_del(int k)
{
    emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"del\",\"k\":%d}", self_id(), k);
    g_c->del(k);
    emit("{\"e\":\"Ret\",\"t\":%d,\"r\":0}", self_id());
}
static void do_clear()
{
    emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"clear\"}", self_id());
    g_c->clear();
    emit("{\"e\":\"Ret\",\"t\":%d,\"r\":0}", self_id());
}
static void do_size()
{
    emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"size\"}", self_id());
    int n = g_c->size();
    emit("{\"e\":\"Ret\",\"t\":%d,\"r\":%d}", self_id(), n);
}
static void do_max()
{
    emit("{\"e\":\"Call\",\"t\":%d,\"op\":\"maxsize\"}", self_id());
    int n = g_c->maxsize();
    emit("{\"e\":\"Ret\",\"t\":%d,\"r\":%d}", self_id(), n);
}
static void do_tick(int d)
{
    advance_us((uint64_t)d * 1000000);
    emit("{\"e\":\"Tick\",\"d\":%d}", d);
}
static int g_cap, g_keys, g_nops, g_vno;
struct WArg
{
    Rng r;
};
static void worker(void *p)
{
    Rng r = ((WArg *)p)->r;
    for (int i = 0; i < g_nops; i++)
    {
        int k = 1 + r.below(g_keys), o = r.below(20);
        if (o < 9)
            do_set(k, ++g_vno, r.chance(1, 3) ? r.range(1, 3) : 0);
        else if (o < 15)
            do_get(k);
        else if (o < 17)
            do_del(k);
        else if (o == 17)
            r.chance(1, 3) && !g_v2 ? do_clear() : do_get(k); // of a divided cache not at one moment
        else if (o == 18)
            g_v2 ? do_get(k) : do_size();
        else
            do_tick(r.range(1, 2));
    }
}
static void hist(int h, Rng &rng)
{
    g_v2 = g_mode.find("v2") == 0;
    std::string m = g_v2 ? g_mode.substr(2) : g_mode;
    bool str = rng.chance(1, 2);
    if (m == "script")
    {
        std::vector<std::string> w = words(script_line(h));
        sched_start(SchedOpts());
        size_t i = 0;
        g_cap = atoi(w[i++].c_str());
        emit("{\"e\":\"Reset\",\"cap\":%d}", g_cap);
        g_c = make(g_v2, str, g_cap);
        while (i < w.size())
        {
            std::string o = w[i++];
            if (o == "set")
            {
                int k = atoi(w[i++].c_str()), v = atoi(w[i++].c_str()), x = atoi(w[i++].c_str());
                do_set(k, v, x);
            }
            else if (o == "get")
                do_get(atoi(w[i++].c_str()));
            else if (o == "del")
                do_del(atoi(w[i++].c_str()));
            else if (o == "clear")
                do_clear();
            else if (o == "size")
                do_size();
            else if (o == "tick")
                do_tick(atoi(w[i++].c_str()));
        }
        do_size();
        do_max();
        emit("{\"e\":\"End\"}");
        return;
    }
    if (m == "seq")
    {
        sched_start(SchedOpts());
        static const int caps[] = {0, 1, 2, 3, 7, 49, 50, 51, 52, 60, 75, 101, 110, 130};
        static const int caps2[] = {0, 1, 2, 7, 31, 32, 33, 64, 100, 320, 1000, 1700};
        g_cap = g_v2 ? caps2[rng.below(6)] : caps[rng.below(14)];
        g_keys = g_cap + rng.range(1, 30);
        emit("{\"e\":\"Reset\",\"cap\":%d}", g_cap);
        g_c = make(g_v2, str, g_cap);
        do_max();
        int nops = rng.range(40, 120 + (g_cap > 300 ? 300 : 2 * g_cap)), hot = rng.range(1, g_keys);
        int bias = rng.below(3);
        for (int i = 0; i < nops; i++)
        {
            int k = 1 + rng.below(rng.chance(1, 3) ? hot : g_keys), o = rng.below(40);
            if (bias == 0 && i < g_cap)
                k = 1 + i, o = 0; // fill first
            if (o < (bias == 1 ? 28 : 20))
                do_set(k, ++g_vno, rng.chance(1, 5) ? rng.range(1, 4) : 0);
            else if (o < 33)
                do_get(k);
            else if (o < 36)
                do_del(k);
            else if (o < 38)
                do_size();
            else if (o == 38)
                do_tick(rng.range(1, 3));
            else if (rng.chance(1, 12))
                do_clear();
        }
        do_size();
        for (int k = 1; k <= g_keys; k++)
            do_get(k);
        do_size();
        delete g_c;
        emit("{\"e\":\"End\"}");
        return;
    }
    // conc
    SchedOpts o = random_opts(rng, true);
    static const int caps[] = {1, 2, 3, 3, 4};
    g_cap = g_v2 ? (rng.chance(1, 2) ? 64 : 320) : caps[rng.below(5)];
    g_keys = rng.range(1, 5);
    g_nops = rng.range(2, 6);
    emit("{\"e\":\"Reset\",\"cap\":%d}", g_cap);
    sched_start(o);
    nopreempt(1);
    g_c = make(g_v2, str, g_cap);
    nopreempt(-1);
    int nt = rng.range(2, 4);
    std::vector<WArg *> a;
    for (int i = 0; i < nt; i++)
    {
        WArg *w = new WArg{Rng(rng.next())};
        spawn(worker, w);
    }
    idle();
    for (int i = 1; i <= nt; i++)
        if (!finished(i))
            stuck("Stuck");
    do_size();
    for (int k = 1; k <= g_keys && k <= 8; k++)
        do_get(k);
    emit("{\"e\":\"End\"}");
}
int main(int argc, char **argv) { return run_histories(argc, argv, hist); }
