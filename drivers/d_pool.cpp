// CRawWorkerPool, CHttpWorkerPool, CAnyWorkerPool behind CCommMgr: peers, reactor and workers under the controlled scheduler.
#include "vrt.h"
#include "vk.h"
#include "dutil.h"
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <set>
#include <new>
#include <stdexcept>
#include "lce.h"
#include "CCommMgr.h"
#include "CRawWorkerPool.h"
#include "CHttpWorkerPool.h"
#include "CAnyWorkerPool.h"
using namespace vrt;
using lce::CCommMgr;
extern "C" size_t vrt_live() __attribute__((weak));
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static long live() { return (long)(vrt_live ? vrt_live() : __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0); }
static Rng R(1);
struct Still // the driver's own steps are one
{
    Still() { nopreempt(1); }
    ~Still() { nopreempt(-1); }
};
static int W(int a, int b) { return R.range(a, b); }
static bool pct(int p) { return (int)R.below(100) < p; }
static int g_kind, g_reactor, g_big;
#ifdef __SANITIZE_THREAD__ // every access may be a step
static const int HUGE_ = 2000;
#else
static const int HUGE_ = 10000;
#endif
static bool g_all;
struct Rq
{
    int c, n;
    uint64_t seed;
    bool good, go, done;
    int an;
    uint64_t aseed;
    size_t alen; // length of the answer on the wire
};
static std::vector<Rq> Q(1);
static std::vector<int> g_held;
static std::string bytes(uint64_t seed, int n)
{
    Rng r(seed);
    std::string s(n, 0);
    for (int i = 0; i < n; i++)
        s[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[r.below(36)];
    return s;
}
static std::string num(int v)
{
    char b[20];
    snprintf(b, sizeof b, "%d", v);
    return b;
}
static std::string be(uint32_t v, int n)
{
    std::string s;
    for (int i = n - 1; i >= 0; i--)
        s += (char)(v >> (8 * i));
    return s;
}
// ---- what requests and answers look like
static std::string payload(int id) // what onRead gets
{
    Rq &q = Q[id];
    std::string b = bytes(q.seed, q.n);
    if (g_kind == 0)
    {
        b = "R" + num(id) + ":" + b;
        return "\x02" + be(b.size() + 4, 2) + b + "\x03";
    }
    if (g_kind == 1)
    {
        if (q.seed & 1)
        {
            std::string v = "id=" + num(id) + "&p=" + b;
            return "POST /do HTTP/1.1\r\nHost: h\r\nContent-Length: " + num(v.size()) + "\r\n\r\n" + v;
        }
        return "GET /do?id=" + num(id) + "&p=" + b + " HTTP/1.1\r\nHost: h\r\n\r\n";
    }
    lce::CAnyPackage p;
    p["id"] = id;
    p["p"] = b;
    p.encode();
    p.head().setCmd(id);
    std::string w(p.data(), p.size());
    if (!q.good)
        w.resize(q.seed % 3 == 0 ? q.seed % 40 : w.size() - 2 - q.seed % q.n); // inside the last value
    if (w.size() < 5)
        w.resize(5);
    w += "\x03";
    w[0] = 2;
    w.replace(1, 4, be(w.size(), 4));
    return w;
}
static std::string answer(int id) // on the wire; for http only the body
{
    Rq &q = Q[id];
    std::string b = bytes(q.aseed, q.an);
    if (g_kind == 2)
    {
        lce::CAnyPackage p;
        p["a"] = id;
        p["b"] = b;
        p.encode();
        p.head().setSeq(id);
        return std::string(p.data(), p.size()) + "\x03";
    }
    return q.an == 0 && g_kind == 0 ? "" : "A" + num(id) + ":" + b;
}
// ---- connections
struct Cn
{
    int port, nread, fd;
    std::vector<int> reqs;
    std::string part;
    bool gone;
    Cn() : port(0), nread(0), fd(-1), gone(false) {}
};
static std::map<int, Cn> C;
static std::map<int, int> g_fdc;
static int cof(lce::StSession &s)
{
    int c = g_fdc.count(s.iFd) ? g_fdc[s.iFd] : 0;
    return c && C[c].port == s.getPort() ? c : 0;
}
struct H : vk::Hooks
{
    void accepted(vk::Obj *o)
    {
        Still still;
        C[o->cid].fd = o->fd;
        C[o->cid].port = o->pport;
        g_fdc[o->fd] = o->cid;
        emit("{\"e\":\"Accept\",\"c\":%d}", o->cid);
    }
    void sent(vk::Obj *o, const char *p, int n)
    {
        Still still;
        Cn &c = C[o->cid];
        c.part.append(p, n);
        o->out.clear();
        for (bool again = true; again && !c.part.empty();)
        {
            again = false;
            for (size_t id = 1; id < Q.size() && !again; id++)
            {
                if (!Q[id].done)
                    continue;
                std::string a = answer(id);
                if (a.empty())
                    continue;
                if (g_kind == 1) // a head made by the writer, then the body
                {
                    size_t k = c.part.find("\r\n\r\n");
                    if (c.part.compare(0, 13, "HTTP/1.1 200 ") == 0 && k != std::string::npos && c.part.compare(k + 4, a.size(), a) == 0)
                        a = c.part.substr(0, k + 4) + a;
                    else
                        continue;
                }
                if (c.part.compare(0, a.size(), a) == 0)
                {
                    emit("{\"e\":\"Sent\",\"c\":%d,\"id\":%d}", o->cid, (int)id);
                    c.part.erase(0, a.size());
                    Q[id].done = false;
                    again = true;
                }
            }
        }
    }
    void closed(vk::Obj *o)
    {
        if (o->kind == vk::TCP && o->cid > 0)
            emit("{\"e\":\"SockClose\",\"c\":%d}", o->cid);
    }
    void badclose(int fd) { emit("{\"e\":\"BadClose\",\"fd\":%d}", fd); }
};
static H g_hooks;
static void onerr(const char *m)
{
    Still still;
    emit("{\"e\":\"Err\",\"t\":%d,\"reactor\":%d,\"what\":\"%s\"}", self_id(), self_id() == g_reactor,
         !strcmp(m, "task queue full") ? "full" : !strncmp(m, "boom", 4) ? "boom" : "other");
}
// ---- workers
static bool open_(void *p) { return g_all || Q[(long)p].go; }
static int g_workers;
struct Wk
{
    int w;
    Wk() : w(g_workers++) {}
    void begin(int id, bool same) // entered and left undisturbed
    {
        emit("{\"e\":\"Work\",\"w\":%d,\"t\":%d,\"id\":%d,\"same\":%d}", w, self_id(), id, same);
        nopreempt(-1);
        for (int i = R.below(5); i > 0; i--)
            point();
        if (pct(30))
        {
            nopreempt(1);
            g_held.push_back(id);
            nopreempt(-1);
            wait_until(open_, (void *)(long)id, -1, "task", false);
        }
        if (!g_all && pct(12))
            usleep(R.below(3000));
        if (pct(12))
        {
            emit("{\"e\":\"Throw\",\"w\":%d,\"t\":%d,\"id\":%d}", w, self_id(), id);
            throw std::runtime_error("boom");
        }
        nopreempt(1);
    }
    bool plan(int id) // -> close
    {
        Rq &q = Q[id];
        q.aseed = R.next();
        q.an = pct(10) ? 0 : pct(20) ? W(1, 4000) : W(1, 40);
        q.done = true;
        return pct(20);
    }
    void end(int id, bool close)
    {
        emit("{\"e\":\"Answer\",\"w\":%d,\"id\":%d,\"n\":%d,\"close\":%d}", w, id, (int)(g_kind == 1 ? 1 : answer(id).size()), close);
    }
};
static bool known(int id) { return id > 0 && id < (int)Q.size(); }
static bool of(lce::StSession &s, int id) { return s.getPort() == C[Q[id].c].port && s.iFd == C[Q[id].c].fd; }
struct RawW : lce::CRawWorker, Wk
{
    void onRequest(lce::CRawRequest &q, lce::CRawResponse &a)
    {
        nopreempt(1);
        int id = q.getReader().size() > 4 ? atoi(q.getReader().c_str() + 4) : 0;
        begin(id, known(id) && q.getReader() == payload(id) && of(q.getSession(), id));
        bool cl = plan(id);
        a.getWriter() = answer(id);
        a.setCloseFlag(cl);
        end(id, cl);
        nopreempt(-1);
    }
};
struct HttpW : lce::CHttpWorker, Wk
{
    void onRequest(lce::CHttpRequest &q, lce::CHttpResponse &a)
    {
        nopreempt(1);
        lce::CHttpReader &r = q.getReader();
        int id = 0;
        std::string p, host = r.getHead("host");
        r.getValue("id", id);
        r.getValue("p", p);
        bool same = known(id) && p == bytes(Q[id].seed, Q[id].n) && of(q.getSession(), id) && host == "h" && !strcmp(r.getURI(), "/do");
        begin(id, same);
        bool cl = plan(id);
        lce::CHttpWriter &w = a.getWriter();
        w.begin();
        w << answer(id);
        w.end();
        a.setCloseFlag(cl);
        end(id, cl);
        nopreempt(-1);
    }
};
struct AnyW : lce::CAnyWorker, Wk
{
    void onRequest(lce::CAnyRequest &q, lce::CAnyResponse &a)
    {
        nopreempt(1);
        int id = q.getReader()["id"];
        std::string p = q.getReader()["p"];
        bool same = known(id) && p == bytes(Q[id].seed, Q[id].n) && of(q.getSession(), id) && (int)q.getReader().head().getCmd() == id;
        begin(id, same);
        bool cl = plan(id);
        lce::CAnyPackage &w = a.getWriter();
        w["a"] = id;
        w["b"] = bytes(Q[id].aseed, Q[id].an);
        w.head().setSeq(id);
        a.setCloseFlag(cl);
        end(id, cl);
        nopreempt(-1);
    }
};
template <class POOL> struct P : POOL
{
    void onRead(lce::StSession &s, const char *p, const int n)
    {
        {
            Still still;
            int c = cof(s), id = 0;
            if (c && C[c].nread < (int)C[c].reqs.size())
                id = C[c].reqs[C[c].nread++];
            emit("{\"e\":\"Read\",\"c\":%d,\"id\":%d,\"same\":%d}", c, id, id && std::string(p, n) == payload(id));
        }
        POOL::onRead(s, p, n);
        emit("{\"e\":\"ReadRet\"}");
    }
    static void *operator new(size_t n) // memory is not clean
    {
        void *p = ::operator new(n);
        memset(p, 0xa5, n);
        return p;
    }
};
static void reactor(void *) { CCommMgr::getInstance().start(); }
// ---- the world
static void quiet()
{
    idle();
    int part = 0;
    for (std::map<int, Cn>::iterator i = C.begin(); i != C.end(); ++i)
        if (vk::conn(i->first) && !vk::conn(i->first)->fdclosed)
            part += i->second.part.size();
    emit("{\"e\":\"Quiet\",\"part\":%d}", part);
}
static std::vector<int> alive()
{
    std::vector<int> v;
    for (std::map<int, Cn>::iterator i = C.begin(); i != C.end(); ++i)
        if (!i->second.gone && vk::conn(i->first) && !vk::conn(i->first)->fdclosed)
            v.push_back(i->first);
    return v;
}
static void ask(int c)
{
    nopreempt(1);
    std::string w;
    for (int k = pct(30) ? W(1, 5) : 1; k > 0; k--)
    {
        Rq q;
        q.c = c;
        q.n = g_big ? W(HUGE_, 2 * HUGE_) : pct(10) ? W(100, 3000) : W(1, 30);
        q.seed = R.next();
        q.good = !(g_kind == 2 && pct(12));
        q.go = q.done = false;
        Q.push_back(q);
        int id = Q.size() - 1;
        C[c].reqs.push_back(id);
        emit("{\"e\":\"Ask\",\"c\":%d,\"id\":%d,\"good\":\"%s\"}", c, id, q.good ? "yes" : "no");
        w += payload(id);
    }
    vk::w_send(c, w);
    nopreempt(-1);
}
static void leave(int c, bool rst)
{
    nopreempt(1);
    vk::Obj *o = vk::conn(c);
    if (o && !o->fdclosed && !C[c].gone)
    {
        C[c].gone = true;
        emit("{\"e\":\"Gone\",\"c\":%d}", c);
        if (rst)
            vk::w_rst(c, ECONNRESET);
        else
            vk::w_fin(c);
    }
    nopreempt(-1);
}
static void let_go(bool all)
{
    nopreempt(1);
    while (!g_held.empty())
    {
        int k = R.below(g_held.size());
        Q[g_held[k]].go = true;
        g_held.erase(g_held.begin() + k);
        if (!all)
            break;
    }
    nopreempt(-1);
}
template <class POOL> static lce::CTask *make(int srv, int n, int max, bool told, int pkg)
{
    P<POOL> *p = new P<POOL>;
    if (told)
        p->setErrHandler(onerr);
    p->init(n, max);
    CCommMgr::getInstance().setProcessor(srv, p, pkg);
    return p;
}
static void hist(int h, Rng &rng)
{
    R = Rng(rng.next());
    set_now_us(T0_US);
    g_kind = R.below(3);
    g_big = pct(10);
    int n = W(1, 4), max = pct(15) ? 100 : W(1, 5);
    bool told = pct(75);
    vk::Opts o;
    o.short_send = pct(20) ? 3 : 0;
    o.short_recv = pct(20) ? 3 : 0;
    vk::start(R.next(), o, &g_hooks);
    CCommMgr &M = CCommMgr::getInstance();
    M.init(1000);
    int srv = M.createSrv(lce::SRV_TCP, "0.0.0.0", 8000);
    lce::CTask *pool = g_kind == 0   ? make<lce::CRawWorkerPool<RawW> >(srv, n, max, told, lce::PKG_H2ST3)
                       : g_kind == 1 ? make<lce::CHttpWorkerPool<HttpW> >(srv, n, max, told, lce::PKG_HTTP)
                                     : make<lce::CAnyWorkerPool<AnyW> >(srv, n, max, told, lce::PKG_H2LT3);
    emit("{\"e\":\"Reset\",\"n\":%d,\"max\":%d,\"told\":%d,\"kind\":%d}", n, max, told, g_kind);
    Q.reserve(2000);
    sched_start(random_opts(R, true));
    emit("{\"e\":\"Run\"}");
    pool->run();
    g_reactor = spawn(reactor, 0);
    long base = live();
    int port = 1024, steps = W(8, 30);
    size_t most = W(2, 6);
    for (int i = 0; i < steps; i++)
    {
        std::vector<int> v = alive();
        if (v.size() < most && (v.empty() || pct(30)))
        {
            nopreempt(1);
            vk::w_connect(8000, 0x0a000001 + R.below(99), ++port, 10000000);
            nopreempt(-1);
            v = alive();
            if (pct(70))
                idle();
        }
        v = alive();
        if (!v.empty())
        {
            int c = v[R.below(v.size())];
            if (pct(10))
                leave(c, pct(40));
            else if (Q.size() < 150)
                ask(c);
        }
        if (pct(40))
            let_go(false);
        if (pct(40))
            quiet();
        if (pct(10))
            advance_us(R.below(4000));
        for (int k = R.below(8); k > 0; k--)
            point();
    }
    for (int r = 0; r < 3; r++)
    {
        g_all = true;
        let_go(true);
        idle();
        advance_us(10000);
        if (r == 1)
        {
            quiet();
            std::vector<int> v = alive();
            for (size_t i = 0; i < v.size(); i++)
                leave(v[i], pct(20));
        }
        idle();
        advance_us(10000);
    }
    quiet();
    nopreempt(1);
    for (std::map<int, Cn>::iterator i = C.begin(); i != C.end(); ++i)
        if (vk::Obj *o = vk::conn(i->first))
            std::string().swap(o->in), std::string().swap(o->out);
    C.clear();
    long left = live() - base;
    emit("{\"e\":\"End\",\"held\":%ld}", left);
    nopreempt(-1);
}
int main(int argc, char **argv) { return run_histories(argc, argv, hist); }
