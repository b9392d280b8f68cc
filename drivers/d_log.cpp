// Log files. "file": CFileLog, one thread, rotation; "rot": the same for CAsyncLog with flushes; "filec": CFileLog shared
// by threads; "async": CAsyncLog shared by threads, its own thread and flushes; "clog": CLog.
#include "vrt.h"
#include "dutil.h"
#include <string.h>
#include <time.h>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include "CFileLog.h"
#include "CAsyncLog.h"
#include "CLog.h"
using namespace vrt;
typedef std::string S;
static S g_dir, g_base;
static bool g_conc;
static lce::CFileLog *g_f;
static lce::CAsyncLog *g_a;
static int g_id;

// the result belongs to everybody: whoever uses it in several threads shall be seen
extern "C" struct tm *localtime(const time_t *t) noexcept
{
    static struct tm b;
    if (g_conc)
    {
        memset(&b, 0, sizeof b); // half written
        point();
    }
    localtime_r(t, &b);
    if (g_conc)
        point();
    return &b;
}
static const int64_t T0S = T0_US / 1000000;
static int now() { return (int)((int64_t)now_ms() - T0_US / 1000); }
static int nows() { return (int)((int64_t)(now_us() / 1000000) - T0S); }
static int day() { return (int)(now_us() / 86400000000ull) - (int)(T0S / 86400); }
static S payload(int id, int len) // len >= 12
{
    char b[32];
    snprintf(b, sizeof b, "L%d:", id);
    S s = b;
    for (int i = s.size(); i < len - 1; i++)
        s += (char)('a' + (id * 7 + i) % 26);
    return s + "#";
}
static const char *LV[] = {"", "[DEBUG]", "[INFO]", "[WARN]", "[ERROR]"};
struct Line
{
    int id, k, t;
};
static bool date(const S &s, int &t)
{
    struct tm m;
    memset(&m, 0, sizeof m);
    int n = 0;
    if (s.size() < 21 || sscanf(s.substr(0, 21).c_str(), "[%4d-%2d-%2d %2d:%2d:%2d]%n", &m.tm_year, &m.tm_mon, &m.tm_mday, &m.tm_hour, &m.tm_min, &m.tm_sec, &n) != 6 || n != 21)
        return false;
    m.tm_year -= 1900;
    m.tm_mon--;
    t = (int)(timegm(&m) - T0S);
    return true;
}
static Line parse(const S &s0)
{
    Line r = {0, 0, 0};
    S s = s0;
    int f = -1, ln = -1;
    if (date(s, r.t))
    {
        r.k = 1;
        s = s.substr(21);
        if (s.size() && s[0] == ':')
            r.k = 2, s = s.substr(1);
        for (int i = 1; i < 5; i++)
            if (s.compare(0, strlen(LV[i]), LV[i]) == 0)
            {
                r.k = 10 + 2 * i;
                s = s.substr(strlen(LV[i]));
                int n = 0;
                if (sscanf(s.c_str(), "[file:f%d.cpp][line:%d]%n", &f, &ln, &n) == 2 && n)
                    r.k++, s = s.substr(n);
                if (s.empty() || s[0] != ' ')
                    return r;
                s = s.substr(1);
                break;
            }
    }
    int id = 0;
    if (sscanf(s.c_str(), "L%d:", &id) == 1 && id > 0 && s.size() >= 12 && s == payload(id, s.size()) && (f < 0 || (f == id && ln == id + 100000)))
        r.id = id;
    return r;
}
static S list_files(const S &only, S *first)
{
    S o = "[";
    std::vector<S> names;
    DIR *d = opendir(g_dir.c_str());
    while (struct dirent *e = d ? readdir(d) : NULL)
        if (e->d_name[0] != '.')
            names.push_back(e->d_name);
    if (d)
        closedir(d);
    std::sort(names.begin(), names.end());
    for (size_t i = 0; i < names.size(); i++)
    {
        struct tm m;
        memset(&m, 0, sizeof m);
        int n = 0, num = 0, e = 0, dd = -1000;
        if (sscanf(names[i].c_str(), "log_%4d-%2d-%2d%n", &m.tm_year, &m.tm_mon, &m.tm_mday, &n) == 3 && n)
        {
            S rest = names[i].substr(n);
            m.tm_year -= 1900, m.tm_mon--;
            if (rest == ".log" || (sscanf(rest.c_str(), "_%d.log%n", &num, &e) == 1 && e == (int)rest.size() && num > 0))
                dd = (int)(timegm(&m) / 86400) - (int)(T0S / 86400);
        }
        std::ifstream f((g_dir + "/" + names[i]).c_str());
        std::stringstream ss;
        ss << f.rdbuf();
        S all = ss.str(), ls = "[";
        size_t p = 0;
        while (p < all.size())
        {
            size_t q = all.find('\n', p);
            Line l = {0, 0, 0};
            if (q != S::npos)
                l = parse(all.substr(p, q - p));
            char b[80];
            snprintf(b, sizeof b, "%s[%d,%d,%d]", p ? "," : "", l.id, l.k, l.k ? l.t : 0);
            ls += b;
            p = q == S::npos ? all.size() : q + 1;
        }
        char b[80];
        snprintf(b, sizeof b, "%s{\"d\":%d,\"n\":%d,\"size\":%d,\"lines\":", o.size() > 1 ? "," : "", dd, num, (int)all.size());
        o += b + ls + "]}";
        if (first)
        {
            snprintf(b, sizeof b, "\"size\":%d,\"lines\":", (int)all.size());
            *first = b + ls + "]";
        }
    }
    return o + "]";
}
static void files() { emit("{\"e\":\"Files\",\"files\":%s}", list_files("", NULL).c_str()); }
static void snap(bool quiet = false)
{
    nopreempt(1);
    S f = "\"size\":0,\"lines\":[]";
    list_files("", &f);
    emit("{\"e\":\"Snap\",\"quiet\":%s,%s}", quiet ? "true" : "false", f.c_str());
    nopreempt(-1);
}
static int size_of(int k, int id, int len)
{
    char b[100] = "";
    if (k >= 10 && (k & 1))
        snprintf(b, sizeof b, "[file:f%d.cpp][line:%d]", id, id + 100000);
    return len + 1 + (k == 0 ? 0 : k == 1 ? 21 : 22) + (k >= 10 ? (int)(strlen(LV[(k - 10) / 2]) + strlen(b) + 1) : 0);
}
template <class L> static bool put(L &l, int k, int id, int len)
{
    S p = payload(id, len);
    if (k == 0)
        return l.writeRaw(p);
    if (k == 1)
        return l.write(p);
    size_t c = len / 2;
    return l.write("%s%c%s", p.substr(0, c).c_str(), p[c], p.substr(c + 1).c_str());
}
static void reset(int max, int n, int cap, int secs, bool sync, bool bad, int mask = 15)
{
    emit("{\"e\":\"Reset\",\"mask\":%d,\"max\":%d,\"n\":%d,\"cap\":%d,\"secs\":%d,\"sync\":%s,\"bad\":%s}", mask, max, n, cap, secs, sync ? "true" : "false", bad ? "true" : "false");
}
static void wipe()
{
    DIR *d = opendir(g_dir.c_str());
    while (struct dirent *e = d ? readdir(d) : NULL)
        if (e->d_name[0] != '.')
            unlink((g_dir + "/" + e->d_name).c_str());
    if (d)
        closedir(d);
    rmdir(g_dir.c_str());
}
// ---------------------------------------------------------------- one thread
static int rlen(Rng &r) { return r.chance(1, 20) ? r.range(200, 2000) : r.range(12, 60); }
static void seq(Rng &r, bool async)
{
    int max = r.chance(1, 8) ? 1000000 : r.range(1, 6) * 50, n = r.range(0, 4), cap = r.chance(1, 4) ? 200 : 1000000;
    bool bad = !async && r.chance(1, 20);
    if (bad)
        g_base = g_dir + "/none/log";
    reset(max, n, cap, 1, false, bad);
    sched_start(SchedOpts());
    int days = r.chance(1, 2) ? 0 : 3;
    int pend = 0; // bytes not yet flushed
    for (int i = r.range(5, 40); i > 0; i--)
    {
        if (!g_f && !async)
            g_f = new lce::CFileLog, g_f->init(g_base, max, n, false);
        if (!g_a && async)
            g_a = new lce::CAsyncLog, g_a->init(g_base, 100000, max, n, false, cap);
        int o = r.below(20);
        if (o < 13)
        {
            int k = r.below(async ? 3 : 4), id = ++g_id, len = rlen(r);
            bool ok;
            if (k == 3)
            {
                k = 2;
                *g_f << payload(id, len) << std::endl;
                ok = !bad;
            }
            else
                ok = async ? put(*g_a, k, id, len) : put(*g_f, k, id, len);
            emit("{\"e\":\"%s\",\"id\":%d,\"k\":%d,\"s\":%d,\"t\":%d,\"d\":%d,\"ok\":%s}", async ? "A" : "F", id, k, size_of(k, id, len), k ? nows() : 0, day(), ok ? "true" : "false");
            pend += ok ? size_of(k, id, len) : 0;
            if (async && cap == 200 && (!ok || pend > 110))
                o = 15; // never more than one buffer
        }
        if (o >= 14 && o < 17 && async && pend)
        {
            g_a->flush();
            emit("{\"e\":\"Flush\",\"d\":%d}", day());
            pend = 0;
        }
        else if (o == 17)
        {
            if (days && r.chance(1, 2))
                advance_us(r.range(1, 2) * 86400000000ull - r.below(3) * 1000), days--;
            else
                advance_us(r.below(10000000));
        }
        else if (o == 18 && r.chance(1, 2))
        {
            if (async && pend)
                emit("{\"e\":\"Flush\",\"d\":%d}", day()); // what is left is written when it goes
            pend = 0;
            delete g_f;
            delete g_a;
            g_f = NULL, g_a = NULL;
            if (async) // its thread may have taken until then
                set_now_us(now_us());
        }
        if (o >= 14 && !pend)
            files();
    }
    if (async && pend)
        emit("{\"e\":\"Flush\",\"d\":%d}", day());
    delete g_f;
    delete g_a;
    files();
}
// ---------------------------------------------------------------- several threads
struct WArg
{
    Rng r;
    int role, n, lo, hi, mode;
};
static void worker(void *p)
{
    WArg &w = *(WArg *)p;
    for (int i = 0; i < w.n; i++)
    {
        if (w.role == 1)
        {
            if (w.r.chance(1, 2))
                usleep(w.r.below(300000));
            emit("{\"e\":\"FCall\",\"t\":%d}", self_id());
            w.mode == 2 ? lce::CLog::flush() : g_a->flush();
            emit("{\"e\":\"FRet\",\"t\":%d}", self_id());
            if (w.r.chance(1, 2))
                snap();
            continue;
        }
        int k = w.mode == 2 ? 10 + 2 * w.r.range(1, 4) + (w.role == 3) : w.r.chance(1, 2) ? 0 : w.r.below(3), len = w.r.range(w.lo, w.hi);
        nopreempt(1);
        int id = ++g_id;
        emit("{\"e\":\"Call\",\"id\":%d,\"k\":%d,\"s\":%d,\"now\":%d}", id, k, size_of(k, id, len), now());
        nopreempt(-1);
        bool ok = true;
        char f[40];
        snprintf(f, sizeof f, "f%d.cpp", id);
        if (w.mode == 2)
            lce::CLog::log((k - 10) / 2, f, id + 100000, "%s", payload(id, len).c_str());
        else
            ok = w.mode == 1 ? put(*g_a, k, id, len) : put(*g_f, k, id, len);
        emit("{\"e\":\"Ret\",\"id\":%d,\"ok\":%s,\"now\":%d}", id, ok ? "true" : "false", now());
        if (w.r.chance(1, 6))
            usleep(w.r.below(1200000));
    }
}
static void conc(Rng &r, int mode)
{
    int cap = mode == 2 || r.chance(1, 4) ? 1000000 : r.range(2, 20) * 20, secs = r.range(mode == 2 ? 1 : 0, 3);
    bool fixed = r.chance(1, 2), show = r.chance(1, 2);
    int mask = mode != 2 || r.chance(1, 2) ? 15 : r.below(16); // the levels wanted
    reset(1000000, 5, cap, secs, mode == 0, false, mask);
    sched_start(random_opts(r, true, true));
    g_conc = true;
    if (mode == 0)
        g_f = new lce::CFileLog, g_f->init(g_base, 1000000, 5, false);
    else if (mode == 1)
        g_a = new lce::CAsyncLog, g_a->init(g_base, secs, 1000000, 5, false, cap);
    else
    {
        if (r.chance(1, 4))
            lce::CLog::log(4, "f0.cpp", 1, "nobody has asked for a log yet"), lce::CLog::flush();
        lce::CLog::init(g_base, secs, cap, 1000000, 5, false, mask, show);
        if (r.chance(1, 4))
            lce::CLog::init(g_base + "x", 0, 10, 10, 1, false, 0, !show);
    }
    std::vector<int> ids;
    int snaps = 0, n = r.range(2, 3), fl = mode ? r.below(3) : 0;
    for (int i = 0; i < n + fl; i++)
    {
        WArg *w = new WArg;
        w->r = Rng(r.next());
        w->role = i < n ? (show ? 3 : 2) : 1;
        w->n = i < n ? r.range(1, 6) : r.range(1, 3);
        w->lo = fixed ? 19 : 12, w->hi = fixed ? 19 : 50;
        w->mode = mode;
        ids.push_back(spawn(worker, w));
    }
    for (;;)
    {
        bool all = true;
        for (size_t i = 0; i < ids.size(); i++)
            all = all && finished(ids[i]);
        if (all)
            break;
        usleep(200000);
        if (r.chance(1, 10) && snaps++ < 5)
            snap();
    }
    bool wait = mode && r.chance(1, 2);
    for (int i = 0; wait && i < 20 * secs + 20; i++)
    {
        usleep(60000);
        idle();
    }
    snap(wait);
    if (mode != 2)
    {
        delete g_f;
        delete g_a;
        emit("{\"e\":\"Gone\"}");
    }
    else
    {
        emit("{\"e\":\"FCall\",\"t\":0}");
        lce::CLog::flush();
        emit("{\"e\":\"FRet\",\"t\":0}");
    }
    snap();
}
static void hist(int h, Rng &r)
{
    char b[40];
    snprintf(b, sizeof b, "/h%d", (int)getpid());
    g_dir = g_work + b;
    mkdir(g_dir.c_str(), 0755);
    g_base = g_dir + "/log";
    g_clock_on = true;
    set_now_us(T0_US + (uint64_t)r.below(g_mode == "file" || g_mode == "rot" ? 86400 : 1000) * 1000000);
    if (g_mode == "file")
        seq(r, false);
    else if (g_mode == "rot")
        seq(r, true);
    else
        conc(r, g_mode == "filec" ? 0 : g_mode == "async" ? 1 : 2);
    emit("{\"e\":\"End\"}");
    wipe();
}
int main(int argc, char **argv) { return run_histories(argc, argv, hist); }
