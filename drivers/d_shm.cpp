// CBitmap and CShmArray over segments that are exactly as long as was asked for (AddressSanitizer watches their ends).
#include "vrt.h"
#include "dutil.h"
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <map>
#include <sys/shm.h>
#include "CBitMap.h"
#include "CShmArray.h"
using namespace vrt;
struct Seg
{
    char *p;
    size_t n;
};
static std::map<int, int> g_key; // key -> id
static std::vector<Seg> g_seg;
static bool g_fail;
static int g_id0; // ids begin here
extern "C" int shmget(key_t key, size_t size, int flag) noexcept
{
    if (g_key.count(key))
    {
        if (size > g_seg[g_key[key] - g_id0].n)
            return errno = EINVAL, -1;
        return g_key[key];
    }
    if (!(flag & IPC_CREAT))
        return errno = ENOENT, -1;
    if (g_fail)
        return errno = ENOSPC, -1;
    Seg s = {(char *)calloc(1, size), size};
    g_seg.push_back(s);
    return g_key[key] = g_id0 + g_seg.size() - 1;
}
extern "C" void *shmat(int id, const void *, int) noexcept
{
    if (id < g_id0 || id >= g_id0 + (int)g_seg.size())
        return errno = EINVAL, (void *)-1;
    return g_seg[id - g_id0].p;
}
extern "C" int shmdt(const void *p) noexcept
{
    for (size_t i = 0; i < g_seg.size(); i++)
        if (g_seg[i].p == p)
            return 0;
    return errno = EINVAL, -1;
}
struct Handle
{
    virtual ~Handle() {}
    virtual bool init(int key, size_t n, bool create, bool ro) = 0;
    virtual bool made() { return true; }
    virtual int get(unsigned long i) const = 0;
    virtual bool set(unsigned long i, int v) = 0;
    virtual void clear() {}
    virtual size_t size() = 0;
    int w, key;
    size_t n;
};
template <size_t W> struct B : Handle
{
    lce::CBitmap<W> b;
    bool init(int key, size_t n, bool c, bool ro) { return b.init(key, n, c, ro); }
    int get(unsigned long i) const { return b.get(i); }
    bool set(unsigned long i, int v) { return b.set(i, v); }
    void clear() { b.clear(); }
    size_t size() { return b.size(); }
};
struct Wide
{
    char c;
    long v;
    int w;
};
static int val(const int &x) { return x; }
static int val(const Wide &x) { return x.v == x.w && x.c == (char)x.w ? x.w : -2; }
static void put(int &x, int v) { x = v; }
static void put(Wide &x, int v) { x.c = v, x.v = v, x.w = v; }
template <class T> struct A : Handle
{
    lce::CShmArray<T> a;
    bool init(int key, size_t n, bool c, bool ro) { return a.init(key, n, c, ro); }
    int get(unsigned long i) const { return val(a[i]); }
    bool set(unsigned long i, int v) { return put(a[i], v), true; }
    size_t size() { return a.size(); }
};
static const int WS[] = {1, 2, 3, 4, 5, 6, 8, 0, -1};
static Handle *make(int w)
{
    Handle *h = w == 1 ? (Handle *)new B<1> : w == 2 ? (Handle *)new B<2> : w == 3 ? (Handle *)new B<3> : w == 4 ? (Handle *)new B<4> : w == 5 ? (Handle *)new B<5> : w == 6 ? (Handle *)new B<6> : w == 8 ? (Handle *)new B<8> : w == 0 ? (Handle *)new A<int> : (Handle *)new A<Wide>;
    h->w = w;
    return h;
}
static void hist(int, Rng &r)
{
    g_id0 = r.range(1, 5);
    emit("{\"e\":\"Reset\"}");
    std::map<int, Handle *> hs;
    std::map<int, size_t> full; // key -> cells
    std::map<int, int> width;
    int nh = 0, only = r.chance(1, 2) ? WS[r.below(9)] : -9, big = r.chance(1, 4) ? 300 : 40;
    std::vector<unsigned long> hot;
    for (int s = r.range(20, 80); s > 0; s--)
    {
        int o = r.below(30);
        if (hs.empty() || (o == 0 && hs.size() < 4))
        {
            int key = r.range(1, 3);
            bool create = !r.chance(1, 5), ro = false;
            if (!width.count(key))
                width[key] = only != -9 ? only : WS[r.below(9)];
            size_t n = r.range(1, big);
            if (full.count(key))
                n = r.chance(1, 2) ? full[key] : r.chance(1, 5) ? full[key] + 64 + r.below(100) : width[key] <= 0 ? full[key] : r.range(1, full[key]);
            g_fail = r.chance(1, 15);
            Handle *h = make(width[key]);
            bool ok = h->init(key, n, create, ro);
            emit("{\"e\":\"Init\",\"h\":%d,\"key\":%d,\"w\":%d,\"n\":%d,\"create\":%s,\"fault\":%s,\"ok\":%s}", nh, key, width[key] < 0 ? 0 : width[key], (int)n, create ? "true" : "false", g_fail && !full.count(key) ? "true" : "false", ok ? "true" : "false");
            h->key = key, h->n = n;
            if (ok)
            {
                if (!full.count(key))
                    full[key] = n;
                hs[nh++] = h;
            }
            else
                delete h;
            continue;
        }
        std::map<int, Handle *>::iterator it = hs.begin();
        for (int k = r.below(hs.size()); k > 0; k--)
            ++it;
        Handle *h = it->second;
        int w = h->w, top = w > 0 ? (1 << w) - 1 : 2147483647;
        unsigned long i = hot.size() && r.chance(1, 2) ? hot[r.below(hot.size())] + r.range(-12, 12) : r.below(h->n);
        if (r.chance(1, 8))
            i = h->n - 1 - r.below(2);
        if (w > 0 && r.chance(1, 10))
            i = h->n + (r.chance(1, 2) ? 0 : r.below(20));
        if (i > 1000000 || (w <= 0 && i >= h->n) || (i > h->n + 100))
            i = w > 0 && r.chance(1, 8) ? 2000000000ul : 0;
        if (o == 1)
        {
            delete h;
            emit("{\"e\":\"Drop\",\"h\":%d}", it->first);
            hs.erase(it);
        }
        else if (o == 2 && w > 0 && h->n == full[h->key])
        {
            h->clear();
            emit("{\"e\":\"Clear\",\"h\":%d}", it->first);
        }
        else if (o == 3)
            emit("{\"e\":\"Size\",\"h\":%d,\"whole\":%s,\"v\":%d}", it->first, w > 0 ? "false" : "true", (int)h->size());
        else if (o < 16)
        {
            int v = r.chance(1, 3) ? top : w > 0 ? r.below(top + 1) : (int)r.below(2147483647u);
            if (w > 1 && w < 8 && r.chance(1, 6))
                v = r.range(top + 1, 255);
            bool ok = h->set(i, v);
            emit("{\"e\":\"Set\",\"h\":%d,\"i\":%d,\"v\":%d,\"ok\":%s}", it->first, (int)i, v, ok ? "true" : "false");
            hot.push_back(i > 100000 ? 0 : i);
            if (r.chance(1, 4)) // the neighbours
                for (unsigned long j = i > 26 ? i - 26 : 0; j < h->n && j < i + 26; j++)
                    emit("{\"e\":\"Get\",\"h\":%d,\"i\":%d,\"v\":%d}", it->first, (int)j, h->get(j));
        }
        else
            emit("{\"e\":\"Get\",\"h\":%d,\"i\":%d,\"v\":%d}", it->first, (int)i, h->get(i));
    }
    for (std::map<int, Handle *>::iterator it = hs.begin(); it != hs.end(); ++it)
        delete it->second;
    emit("{\"e\":\"End\"}");
}
int main(int argc, char **argv) { return run_histories(argc, argv, hist); }
