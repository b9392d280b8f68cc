// CCommMgr (with -DNET: CNetWorkerMgr and its workers) on the virtual kernel. The world (thread 0) plays peers, clock and faults; the reactor thread runs the real
// event loop; a random application answers the callbacks. Modes weight what the world and the application do.
#include "vrt.h"
#include "vk.h"
#include "dutil.h"
#include "wire.h"
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <arpa/inet.h>
#include <signal.h>
#include <set>
#include "lce.h"
#include "CCommMgr.h"
#ifdef NET
#include "CNetWorkerMgr.h"
#endif
using namespace vrt;
using lce::CCommMgr;
static Rng R(1);
static thread_local int TH = 0; // 0: the (accepting) reactor, 1..: worker
static int W(int a, int b) { return R.range(a, b); }
static bool pct(int p) { return (int)R.below(100) < p; }

// ------------------------------------------------------------------ profile of a mode
struct Profile
{
    int conns, steps;          // peers, world steps
    int reply, bigw, closew, appclose, defer, timers, msgs, outc, udp, bad, rst, fin, part, flood, rm, burst;
    bool slow;                 // peers that do not read
    bool faults;
};
static Profile P;
static std::string sub; // what this history is about
struct SrvDef
{
    int id;          // id used in the log
    int port;
    int pkg;         // 0 raw 1 h2s 2 h2l 3 http 4 ext
    int type;        // 0 tcp 1 udp 2 conn
    int mr, ms, ir, is;
    bool removed;
};
static std::vector<SrvDef> S;
static int g_max, g_fdcap;
#ifdef NET
static const bool net = true;
#else
static const bool net = false;
static CCommMgr *M;
#endif
static int64_t now() { return (int64_t)now_ms() - (int64_t)(T0_US / 1000); }

// ------------------------------------------------------------------ connections as the recorder sees them
struct Cn
{
    int srv, port, fd;
    Pos hin, hout;
    std::vector<int> in, out; // tags in stream order
    bool seen;                // end of stream or failure taken by the code
    std::string rest;         // bytes of the current package still to be sent by the peer
    bool gone, slow, told, up;
    Cn() : srv(-1), port(0), fd(-1), seen(false), gone(false), slow(false), told(false), up(false) {}
};
static std::map<int, Cn> C;
static std::map<int, int> g_first; // datagrams with more than one package -> length of the first
static std::map<int, int> g_due; // udp server -> datagram last taken
static int g_wto;               // datagram last written
static std::map<int, int> g_fdc; // descriptor -> connection that has or last had it
static std::map<int, std::vector<int> > g_fdh; // all that had it
static void fdc(int fd, int cid)
{
    g_fdc[fd] = cid;
    g_fdh[fd].push_back(cid);
}
static int cof(int fd)
{
    std::map<int, int>::iterator i = g_fdc.find(fd);
    return i == g_fdc.end() ? 0 : i->second;
}
// with several threads a descriptor may be another connection's by the time of the callback
static int cof(lce::StSession &s)
{
    if (net)
    {
        std::vector<int> &v = g_fdh[s.iFd];
        for (int i = (int)v.size() - 1; i >= 0; i--)
            if (C[v[i]].port == s.getPort())
                return v[i];
    }
    return cof(s.iFd);
}
static SrvDef *byport(int port, int type)
{
    for (size_t i = 0; i < S.size(); i++)
        if (S[i].port == port && S[i].type == type)
            return &S[i];
    return 0;
}
struct H : vk::Hooks
{
    void accepted(vk::Obj *o)
    {
        Cn &c = C[o->cid];
        SrvDef *s = byport(o->port, 0);
        c.srv = s->id;
        c.fd = o->fd;
        c.port = o->pport;
        fdc(o->fd, o->cid);
        emit("{\"e\":\"Accept\",\"c\":%d,\"srv\":%d,\"port\":%d,\"fd\":%d}", o->cid, s->id, o->pport, o->fd);
    }
    void sock(vk::Obj *o)
    {
        C[o->cid].fd = o->fd;
        // a listening socket is a socket first: only connect() makes it a connection of interest
    }
    void connecting(vk::Obj *o, int r)
    {
        fdc(o->fd, o->cid);
        C[o->cid].port = o->pport;
        C[o->cid].told = true;
        emit("{\"e\":\"Socket\",\"th\":%d,\"c\":%d,\"fd\":%d}", TH, o->cid, o->fd);
        emit("{\"e\":\"Connecting\",\"th\":%d,\"c\":%d,\"res\":\"%s\"}", TH, o->cid, r == 0 ? "now" : r == EINPROGRESS ? "progress" : "fail");
    }
    void recvd(vk::Obj *o, const char *, int n)
    {
        if (n == 0)
            C[o->cid].seen = true;
        emit("{\"e\":\"Recv\",\"c\":%d,\"n\":%d}", o->cid, n);
    }
    void rfault(vk::Obj *o, int err)
    {
        bool again = err == EAGAIN || err == EINTR;
        if (o->kind == vk::UDP)
        {
            SrvDef *s = byport(o->port, 1);
            emit("{\"e\":\"UdpFails\",\"srv\":%d}", s ? s->id : 0);
            return;
        }
        if (!again)
            C[o->cid].seen = true;
        emit("{\"e\":\"RecvFails\",\"c\":%d,\"kind\":\"%s\"}", o->cid, again ? "again" : "gone");
    }
    void accept_fault(vk::Obj *, int) { emit("{\"e\":\"AcceptFails\"}"); }
    void sent(vk::Obj *o, const char *p, int n)
    {
        Cn &c = C[o->cid];
        emit("{\"e\":\"Sent\",\"c\":%d,\"rs\":%s}", o->cid, runs(p, n, c.hout, c.out).c_str());
        o->out.clear();
    }
    void closed(vk::Obj *o)
    {
        if (o->kind == vk::TCP && o->cid > 0 && (o->incoming || C[o->cid].told))
            emit("{\"e\":\"SockClose\",\"c\":%d}", o->cid);
    }
    void badclose(int fd) { emit("{\"e\":\"BadClose\",\"fd\":%d}", fd); }
    void udp_recvd(vk::Obj *o, const vk::Dgram &d, int)
    {
        SrvDef *s = byport(o->port, 1);
        g_due[s->id] = d.tag >> 2;
        int t = d.tag >> 2;
        emit("{\"e\":\"UdpTaken\",\"srv\":%d,\"t\":%d,\"n\":%d,\"bad\":%d,\"p\":%d,\"port\":%d}", s->id, t, (int)d.data.size(), d.tag & 3,
             g_first.count(t) ? g_first[t] : (int)d.data.size(), d.port);
    }
    void udp_sent(vk::Obj *o, const vk::Dgram &d)
    {
        SrvDef *s = byport(o->port, 1);
        Pos p(g_wto, 0);
        std::vector<int> none;
        emit("{\"e\":\"UdpSent\",\"th\":0,\"srv\":%d,\"rs\":%s,\"port\":%d}", s ? s->id : 0, runs(d.data.data(), (int)d.data.size(), p, none).c_str(), d.port);
    }
};
static H g_hooks;

// ------------------------------------------------------------------ packages
struct LineFilter : lce::CPackageFilter // one byte of length, then that many bytes; length 0 is malformed
{
    int isWholePkg(const char *p, const int n, int &real, int &len)
    {
        if (n <= 0)
            return -1;
        int k = (unsigned char)p[0];
        if (k == 0)
            return -2;
        if (n < k + 1)
            return -1;
        real = k;
        len = k + 1;
        return 0;
    }
    const char *getRealPkgData(const char *p, const int) { return p + 1; }
};
static LineFilter g_line;
static std::string be(uint32_t v, int n)
{
    std::string s;
    for (int i = n - 1; i >= 0; i--)
        s += (char)(v >> (8 * i));
    return s;
}
static int psize(int mr) // interesting payload sizes
{
    switch (R.below(10))
    {
    case 0:
        return 0;
    case 1:
        return 1;
    case 2:
        return mr - W(0, 12);
    case 3:
        return mr + W(0, 40);
    case 4:
    case 5:
        return W(0, mr);
    default:
        return W(0, 40);
    }
}
// a package for a server; bad: number of bytes after which it is known to be malformed (0: well formed)
static std::string package(const SrvDef &s, bool wantbad, int &bad, bool tiny = false)
{
    int n = tiny ? W(0, 12) : psize(s.mr);
    if (n < 0)
        n = 0;
    bad = 0;
    switch (s.pkg)
    {
    case 0:
        return noise(R, n < 1 ? 1 : n > 4000 ? 4000 : n);
    case 1:
    case 2:
    {
        int lw = s.pkg == 1 ? 2 : 4, ov = lw + 2, body = n - ov < 0 ? 0 : n - ov;
        if (s.pkg == 1 && body > 65535 - ov)
            body = 65535 - ov;
        uint32_t len = body + ov;
        std::string b = noise(R, body), h = "\x02";
        char tail = 3;
        if (wantbad)
            switch (R.below(4))
            {
            case 0:
                h = std::string(1, (char)W(3, 255));
                bad = 1;
                break;
            case 1:
                len = R.below(ov);
                bad = ov; // the length is looked at when a whole minimal package could be there
                break;
            case 2:
                tail = (char)W(4, 255);
                bad = len;
                break;
            default:
                if (s.pkg == 2)
                {
                    len = 0x80000000u + R.below(0x7fffffff);
                    bad = ov;
                }
                else
                {
                    tail = 2;
                    bad = len;
                }
            }
        std::string w = h + be(len, lw) + b + tail;
        if (bad > (int)w.size())
            w += noise(R, bad - (int)w.size());
        return w;
    }
    case 3:
    {
        static const char *ct[] = {"Content-Length: ", "content-length: ", "CONTENT-LENGTH:", "Content-length:  "};
        bool resp = pct(25);
        std::string w = resp ? "HTTP/1.1 200 OK\r\n" : pct(50) ? "POST /a?b=c HTTP/1.1\r\n" : "GET /x HTTP/1.1\r\n";
        int hs = W(0, 3);
        for (int i = 0; i < hs; i++)
            w += "X-H" + std::string(1, (char)('a' + R.below(26))) + ": " + std::string(R.below(30), 'v') + "\r\n";
        bool body = pct(60);
        n = n > s.mr - 200 && n <= s.mr && pct(50) ? s.mr - 200 : n;
        if (wantbad)
        {
            static const char *v[] = {"-5", "-1", "-2147483648", "2147483647", "2147483640", "4294967296", "4294967301",
                                      "18446744073709551621", "99999999999999999999999"};
            w += std::string("Content-Length: ") + v[R.below(9)] + "\r\n\r\n";
            bad = (int)w.size();
            return w;
        }
        if (body)
        {
            char b[16];
            snprintf(b, sizeof b, "%d", n);
            w += std::string(ct[sub == "http1" ? 0 : R.below(4)]) + b + "\r\n";
        }
        if (pct(30))
            w += "Connection: keep-alive\r\n";
        w += "\r\n";
        if (body)
        {
            std::string d = noise(R, n);
            if (n > 8 && pct(30))
                memcpy(&d[0], "\r\n\r\n", 4);
            w += d;
        }
        return w;
    }
    default:
    {
        if (wantbad)
        {
            bad = 1;
            return std::string(1, '\0');
        }
        int k = n < 1 ? 1 : n > 255 ? 255 : n;
        return std::string(1, (char)k) + noise(R, k);
    }
    }
}

static int wsize(int srv)
{
    const SrvDef *s = 0;
    for (size_t i = 0; i < S.size(); i++)
        if (S[i].id == srv)
            s = &S[i];
    int ms = s ? s->ms : 1000;
    if (pct(3))
        return 0;
    if (!pct(P.bigw))
        return W(1, 60);
    switch (R.below(5))
    {
    case 0:
        return ms;
    case 1:
        return ms + W(1, 20);
    case 2:
        return W(1, ms * 2);
    default:
        return W(1, ms);
    }
}
// ------------------------------------------------------------------ the application
struct Sess
{
    lce::StSession s;
    int c, srv;
};
static int g_data, g_msgid;
static int budget = 0; // calls the application may still make (keeps histories finite)
static int g_unit = 1; // timers in units of so many ms
static SrvDef *udpsrv(int id)
{
    for (size_t i = 0; i < S.size(); i++)
        if (S[i].id == id && S[i].type == 1)
            return &S[i];
    return 0;
}
// the application of one reactor
#ifdef NET
#define BASE lce::CNetWorker
#define M this
#define PROC
#else
#define BASE lce::CProcessor
#define PROC (lce::CProcessor *)this,
#endif
struct App;
static std::vector<App *> g_apps;
struct App : BASE
{
    int th; // thread in the specification
    std::vector<Sess> g_kept;
    int g_nextTimer;
    std::set<int> g_timers;
#ifdef NET
    int init() { return 0; }
#endif
    App() : g_nextTimer(0)
    {
        th = net ? (int)g_apps.size() + 1 : 0;
        g_apps.push_back(this);
    }
    void do_write(const Sess &k, int n, bool close)
    {
        int t = new_tag(noise(R, n));
        Cn &c = C[k.c];
        if (n > 0)
            c.out.push_back(t);
        emit("{\"e\":\"Write\",\"th\":%d,\"c\":%d,\"rs\":[[%d,0,%d]],\"close\":%d}", th, k.c, t, n, close);
        std::string w = g_wire[t];
        int r = M->write(k.s, w.data(), n, close);
        if (r != 0) // what is not sent yet never will be
        {
            if (c.hout.tag == t)
                c.hout.off = n;
            else if (!c.out.empty() && c.out.back() == t)
                c.out.pop_back();
        }
        emit("{\"e\":\"WriteRet\",\"th\":%d,\"r\":%d}", th, r);
    }
    void do_close(const Sess &k)
    {
        emit("{\"e\":\"Close\",\"th\":%d,\"c\":%d}", th, k.c);
        M->close(k.s);
        emit("{\"e\":\"CloseRet\",\"th\":%d}", th);
    }
    void do_connect()
    {
        std::vector<int> v;
        for (size_t i = 0; i < S.size(); i++)
            if (S[i].type == 2 && !S[i].removed)
                v.push_back(i);
        if (v.empty())
            return;
        SrvDef &s = S[v[R.below(v.size())]];
        static int ports = 60000;
        int port = net ? ++ports : W(20000, 40000), d = ++g_data;
        emit("{\"e\":\"Connect\",\"th\":%d,\"srv\":%d,\"port\":%d,\"data\":%d}", th, s.id, port, d);
        // the recorder must know the server of the connection before its callbacks
        int r = M->connect(s.id, "10.0.0.9", port, (void *)(long)d);
        int c = r < 0 ? 0 : cof(r);
        if (c)
            C[c].srv = s.id;
        emit("{\"e\":\"ConnectRet\",\"th\":%d,\"c\":%d}", th, c);
    }
    void do_timer(int again = 0)
    {
        int id = again ? again : g_timers.empty() || pct(60) ? ++g_nextTimer : *g_timers.begin(), ms;
        if (g_unit > 1)
            ms = pct(50) ? W(2147484, 4294967) : W(1, 5000);
        else
            ms = pct(20) ? 0 : pct(50) ? W(1, 30) : W(1, 9000);
        int d = ++g_data;
        g_timers.insert(id);
        int lo = (int)(now() / g_unit);
        int r = M->addTimer(id, (uint32_t)ms * g_unit, PROC (void *)(long)d);
        emit("{\"e\":\"AddTimer\",\"w\":%d,\"id\":%d,\"lo\":%d,\"hi\":%d,\"data\":%d,\"r\":%d}", th, id, lo + ms, (int)(now() / g_unit) + ms, d, r);
    }
    void do_deltimer()
    {
        int id = g_timers.empty() || pct(20) ? W(1, 5) : *g_timers.begin();
        g_timers.erase(id);
        M->delTimer(id);
        emit("{\"e\":\"DelTimer\",\"w\":%d,\"id\":%d}", th, id);
    }
    void do_msg() // called by other threads too
    {
        int id = ++g_msgid, ty = id % 7;
        emit("{\"e\":\"Msg\",\"w\":%d,\"id\":%d,\"type\":%d}", th, id, ty);
        int r = M->sendMessage(ty, PROC (void *)(long)id);
        emit("{\"e\":\"MsgRet\",\"id\":%d,\"r\":%d}", id, r);
    }
#ifdef NET
    void do_writeto() {}
    void do_rm() {}
#else
    void do_writeto()
    {
        std::vector<int> v;
        for (size_t i = 0; i < S.size(); i++)
            if (S[i].type == 1)
                v.push_back(i);
        if (v.empty())
            return;
        SrvDef &s = S[v[R.below(v.size())]];
        int n = W(1, 900), t = new_tag(noise(R, n)), port = W(1024, 60000);
        g_wto = t;
        emit("{\"e\":\"WriteTo\",\"th\":%d,\"srv\":%d,\"rs\":[[%d,0,%d]],\"port\":%d}", th, s.id, t, n, port);
        int r = M->writeTo(s.id, "10.0.0.7", port, g_wire[t].data(), n);
        emit("{\"e\":\"WriteToRet\",\"th\":%d,\"r\":%d}", th, r);
    }
    void do_rm()
    {
        std::vector<int> v;
        for (size_t i = 0; i < S.size(); i++)
            if (!S[i].removed && S[i].type != 1)
                v.push_back(i);
        if (v.size() < 2)
            return;
        SrvDef &s = S[v[R.below(v.size())]];
        s.removed = true;
        emit("{\"e\":\"RmSrv\",\"th\":%d,\"srv\":%d}", th, s.id);
        int r = M->rmSrv(s.id);
        emit("{\"e\":\"RmSrvRet\",\"th\":%d,\"r\":%d}", th, r);
    }
#endif
    void act(Sess *k)
    {
        int guard = 6;
        while (guard-- && budget > 0)
        {
            budget--;
            if (k && pct(P.reply))
                do_write(*k, wsize(k->srv), pct(P.closew));
            if (k && pct(P.appclose))
                do_close(*k);
            if (k && pct(P.defer))
                g_kept.push_back(*k);
            if (!g_kept.empty() && pct(P.defer))
            {
                int i = R.below(g_kept.size());
                Sess z = g_kept[i];
                g_kept.erase(g_kept.begin() + i);
                if (pct(80))
                    do_write(z, wsize(z.srv), pct(P.closew));
                else
                    do_close(z);
            }
            if (pct(P.outc))
                do_connect();
            if (pct(P.timers))
                do_timer();
            if (pct(P.timers / 3))
                do_deltimer();
            if (pct(P.msgs))
                do_msg();
            if (pct(P.udp))
                do_writeto();
            if (pct(P.rm))
                do_rm();
            if (pct(60))
                break;
        }
    }
    Sess see(lce::StSession &s)
    {
        Sess k;
        k.s = s;
        k.c = cof(s);
        TH = th;
        k.srv = s.iSvrId;
        return k;
    }
    void onRead(lce::StSession &s, const char *p, const int n)
    {
        SrvDef *u = udpsrv(s.iSvrId);
        if (u)
        {
            Pos ps(g_due[u->id], 0);
            std::vector<int> none;
            emit("{\"e\":\"OnUdpRead\",\"srv\":%d,\"rs\":%s,\"port\":%d}", u->id, runs(p, n, ps, none).c_str(), s.getPort());
            act(0);
            return;
        }
        Sess k = see(s);
        Cn &c = C[k.c];
        emit("{\"e\":\"OnRead\",\"th\":%d,\"c\":%d,\"srv\":%d,\"port\":%d,\"rs\":%s}", th, k.c, k.srv, s.getPort(), runs(p, n, c.hin, c.in).c_str());
        act(&k);
    }
    void onClose(lce::StSession &s)
    {
        Sess k = see(s);
        emit("{\"e\":\"OnClose\",\"th\":%d,\"c\":%d,\"srv\":%d,\"port\":%d}", th, k.c, k.srv, s.getPort());
        act(pct(30) ? &k : 0);
    }
    void onConnect(lce::StSession &s, bool ok, void *d)
    {
        Sess k = see(s);
        if (k.c)
            C[k.c].srv = k.srv, C[k.c].up = true;
        emit("{\"e\":\"OnConnect\",\"th\":%d,\"c\":%d,\"srv\":%d,\"port\":%d,\"ok\":%d,\"data\":%ld}", th, k.c, k.srv, s.getPort(), ok, net && C[k.c].told == false ? 0 : (long)d);
        act(pct(50) ? &k : 0);
    }
    void onError(lce::StSession &s, const char *, int code)
    {
        if (udpsrv(s.iSvrId))
        {
            emit("{\"e\":\"OnUdpError\",\"srv\":%d,\"code\":%d}", s.iSvrId, code);
            return;
        }
        Sess k = see(s);
        emit("{\"e\":\"OnError\",\"th\":%d,\"c\":%d,\"srv\":%d,\"port\":%d,\"code\":%d}", th, k.c, k.srv, k.c ? s.getPort() : 0, code);
        act(k.c && pct(30) ? &k : 0);
    }
    void onTimer(int id, void *d)
    {
        TH = th;
        g_timers.erase(id);
        emit("{\"e\":\"OnTimer\",\"th\":%d,\"id\":%d,\"data\":%ld,\"now\":%d}", th, id, (long)d, (int)(now() / g_unit));
        if (pct(25)) // once more
            do_timer(id);
        act(0);
    }
    void onMessage(int ty, void *d)
    {
        TH = th;
        emit("{\"e\":\"OnMessage\",\"th\":%d,\"id\":%ld,\"type\":%d}", th, (long)d, ty);
        act(0);
    }
};
#ifdef NET
#undef M
static lce::CNetWorkerMgr<App> *M;
static void mgrerror(const char *) { emit("{\"e\":\"MgrError\"}"); }
#endif
static void reactor(void *) { M->start(); }
static App *app() { return g_apps[R.below(g_apps.size())]; }
static void sender(void *p)
{
    int n = (int)(long)p;
    for (int i = 0; i < n; i++)
        app()->do_msg();
}

// ------------------------------------------------------------------ the world
static void quiet()
{
    idle();
    std::string un, room;
    int backlog = 0;
    for (std::map<int, Cn>::iterator i = C.begin(); i != C.end(); ++i)
    {
        vk::Obj *o = vk::conn(i->first);
        if (!o || o->fd < 0 || o->fdclosed)
            continue;
        char b[16];
        snprintf(b, sizeof b, "%d,", i->first);
        if (!o->in.empty() || ((o->fin || o->rst) && !i->second.seen))
            un += b;
        if (o->space > 0)
            room += b;
    }
    for (size_t i = 0; i < S.size(); i++)
    {
        vk::Obj *l = S[i].type == 0 ? vk::listener(S[i].port) : 0;
        if (l)
            backlog += l->backlog.size();
        vk::Obj *u = S[i].type == 1 ? vk::udp(S[i].port) : 0;
        if (u)
            backlog += u->dg.size();
    }
    if (!un.empty())
        un.erase(un.size() - 1);
    if (!room.empty())
        room.erase(room.size() - 1);
    emit("{\"e\":\"Quiet\",\"unread\":[%s],\"room\":[%s],\"backlog\":%d,\"now\":%d}", un.c_str(), room.c_str(), backlog, (int)(now() / g_unit));
}
static std::vector<int> alive()
{
    std::vector<int> v;
    for (std::map<int, Cn>::iterator i = C.begin(); i != C.end(); ++i)
    {
        vk::Obj *o = vk::conn(i->first);
        if (o && !o->fdclosed && o->kind == vk::TCP && o->st == vk::READY && !i->second.gone && i->second.srv >= 0)
            v.push_back(i->first);
    }
    return v;
}
static const SrvDef &srv(int id)
{
    for (size_t i = 0; i < S.size(); i++)
        if (S[i].id == id)
            return S[i];
    return S[0];
}
static bool g_burst; // and nothing more for now
static void peer_send(int cid, bool bad)
{
    Cn &c = C[cid];
    const SrvDef &s = srv(c.srv);
    nopreempt(1);
    bool burst = false;
    if (c.rest.empty())
    {
        int k = pct(P.flood) ? W(1, 6) : 1;
        if (pct(P.burst) && !bad && s.pkg != 0) // many small packages at once
        {
            burst = true;
            k = pct(P.burst > 6 ? 40 : 70) ? W(7, 60) : W(60, 300);
            g_burst = true;
        }
        while (k--)
        {
            int b;
            std::string w = package(s, bad && k == 0, b, burst);
            int t = new_tag(w);
            c.in.push_back(t);
            emit("{\"e\":\"In\",\"c\":%d,\"srv\":%d,\"t\":%d,\"n\":%d,\"bad\":%d}", cid, c.srv, t, (int)w.size(), b);
            c.rest += w;
        }
    }
    int n = (int)c.rest.size();
    if (!burst && pct(P.part))
        n = pct(50) ? W(0, n) : W(0, n < 9 ? n : 9);
    vk::w_send(cid, c.rest.substr(0, n));
    c.rest.erase(0, n);
    nopreempt(-1);
}
static void peer_gone(int cid, bool rst)
{
    Cn &c = C[cid];
    nopreempt(1);
    vk::Obj *o = vk::conn(cid);
    if (!o->fdclosed && !c.gone)
    {
        c.gone = true;
        emit("{\"e\":\"Gone\",\"c\":%d,\"how\":\"%s\"}", cid, rst ? "rst" : "fin");
        if (rst)
            vk::w_rst(cid, pct(70) ? ECONNRESET : pct(50) ? EPIPE : ETIMEDOUT);
        else
            vk::w_fin(cid);
    }
    nopreempt(-1);
}
// a peer that did not take anything does so, and is gone at that moment
static void wake_and_go()
{
    std::vector<int> v;
    for (int c : alive())
        if (vk::conn(c)->space == 0 && !C[c].gone && C[c].up)
            v.push_back(c);
    if (v.empty())
        return;
    int c = v[R.below(v.size())];
    vk::w_space(c, W(1, 1500));
    for (int i = R.below(6); i > 0; i--)
        point();
    peer_gone(c, pct(80));
}
static void new_peer()
{
    std::vector<int> v;
    for (size_t i = 0; i < S.size(); i++)
        if (S[i].type == 0 && !S[i].removed)
            v.push_back(i);
    if (v.empty())
        return;
    nopreempt(1);
    SrvDef &s = S[v[R.below(v.size())]];
    static int ports = 1024;
    int port = net ? ++ports : W(1024, 60000);
    size_t sp = P.slow && pct(50) ? W(0, 60) : P.slow ? W(0, 4000) : 1000000;
    int cid = vk::w_connect(s.port, 0x0a000000 + R.below(250), port, sp);
    if (cid > 0)
    {
        C[cid].srv = s.id;
        C[cid].port = port;
        C[cid].slow = P.slow && pct(70);
    }
    nopreempt(-1);
}
static void send_dgram()
{
    std::vector<int> v;
    for (size_t i = 0; i < S.size(); i++)
        if (S[i].type == 1)
            v.push_back(i);
    if (v.empty())
        return;
    SrvDef &s = S[v[R.below(v.size())]];
    int bad = 0;
    vk::Dgram d;
    if (pct(3))
        d.data = "";
    else
        d.data = package(s, pct(P.bad), bad);
    if (d.data.size() > 60000)
        return;
    int cut = 0;
    if (s.pkg != 0 && d.data.size() > 1 && pct(P.bad)) // half a package
        d.data.resize(W(1, (int)d.data.size() - 1)), cut = 1;
    int first = 0, b2 = 0;
    if (s.pkg != 0 && d.data.size() && !bad && !cut && pct(P.bad)) // and more after it
        first = (int)d.data.size(), d.data += pct(50) ? package(s, false, b2) : std::string(W(1, 30), (char)W(0, 255));
    if (d.data.size() > 60000)
        return;
    d.ip = 0x0a000000 + R.below(250);
    d.port = W(1024, 60000);
    int t = new_tag(d.data);
    d.tag = t * 4 + (first ? 2 : bad || cut ? 1 : 0);
    if (first)
        g_first[t] = first;
    vk::w_udp(s.port, d);
}
static void establish(int cid, bool ok)
{
    nopreempt(1);
    vk::Obj *o = vk::conn(cid);
    if (o->st == vk::CONNECTING && !o->fdclosed)
    {
        emit("{\"e\":\"Established\",\"c\":%d,\"ok\":%d}", cid, ok);
        vk::w_establish(cid, ok ? 0 : pct(50) ? ECONNREFUSED : ETIMEDOUT, P.slow ? W(1, 3000) : 1000000); // an established connection takes something
    }
    nopreempt(-1);
}
static void open_windows()
{
    for (std::map<int, Cn>::iterator i = C.begin(); i != C.end(); ++i)
        if (vk::conn(i->first))
            vk::w_space(i->first, 10000000);
}
static void setup(Rng &rng)
{
    vk::Opts o;
    if (P.faults)
    {
        static const uint32_t d[] = {0, 2, 3, 8, 30};
        o.short_recv = d[rng.below(5)];
        o.short_send = d[rng.below(5)];
        o.eagain_recv = rng.chance(1, 3) ? 12 : 0;
        o.eagain_send = rng.chance(1, 3) ? 5 : 0;
        o.eintr = rng.chance(1, 3) ? 20 : 0;
        o.epoll_eintr = rng.chance(1, 4) ? 10 : 0;
        o.accept_err = rng.chance(1, 6) ? 6 : 0;
        o.connect_now = rng.chance(1, 3) ? 40 : 0;
        o.connect_err = rng.chance(1, 3) ? 25 : 0;
    }
    if (sub == "msg")
        o.pipe_cap = rng.chance(1, 2) ? rng.range(1, 6) : 65536;
    vk::start(rng.next(), o, &g_hooks);
}
static void profile(Rng &rng)
{
    memset(&P, 0, sizeof P);
    P.conns = 4;
    P.steps = W(15, 50);
    P.reply = 30;
    P.bigw = 20;
    P.closew = 15;
    P.appclose = 4;
    P.part = 50;
    P.flood = 30;
    P.fin = 4;
    P.rst = 2;
    P.faults = pct(70);
    P.slow = pct(40);
    const std::string &m = sub;
    if (m == "in")
    {
        P.reply = 8, P.fin = 6, P.flood = 50, P.part = 70, P.slow = false, P.burst = pct(30) ? 6 : 0;
        if (pct(20)) // nothing but many small packages at a time
            P.burst = 50, P.steps = W(6, 14), P.conns = 2, P.faults = pct(25), P.reply = 3, P.appclose = 1;
    }
    else if (m == "out")
    {
        P.reply = 80, P.bigw = 50, P.slow = pct(85), P.closew = 20, P.appclose = 2, P.rst = pct(50) ? 3 : 0;
    }
    else if (m == "life")
    {
        P.conns = 8, P.appclose = 15, P.closew = 40, P.fin = 20, P.rst = 10, P.slow = pct(60), P.bigw = 35, P.outc = pct(50) ? 6 : 0;
        P.rm = pct(15) ? 3 : 0;
    }
    else if (m == "reuse")
    {
        P.conns = 10, P.appclose = 25, P.defer = 40, P.outc = 20, P.timers = 10, P.msgs = 10, P.fin = 15, P.rst = 10;
        P.rm = pct(10) ? 2 : 0;
    }
    else if (m == "limit")
    {
        P.conns = 70, P.steps = W(90, 200), P.fin = 5, P.rst = 2, P.reply = 3, P.appclose = 3, P.flood = 10;
        P.faults = pct(40);
        if (pct(60))
            P.outc = 8, P.reply = 8;
    }
    else if (m == "bad")
    {
        P.bad = 25, P.reply = 20, P.rst = 6;
    }
    else if (m == "timer")
    {
        P.timers = 45, P.conns = 2, P.steps = W(20, 60), P.msgs = 5;
        g_unit = pct(15) ? 1000 : 1;
    }
    else if (m == "msg")
    {
        P.msgs = 30, P.conns = 1, P.steps = W(6, 20);
    }
    else if (m == "connect")
    {
        P.outc = 40, P.conns = 2, P.timers = 10, P.fin = 10, P.rst = 5, P.appclose = 10, P.defer = 10;
    }
    else if (m == "udp")
    {
        P.udp = 25, P.conns = 1, P.bad = 15, P.timers = 5;
    }
    budget = W(20, 120);
}
static void hist(int h, Rng &rng)
{
    R = Rng(rng.next());
    set_now_us(T0_US + rng.below(1000000));
    sub = g_mode;
    static const char *subs[][4] = {{"life", "reuse", "limit", "life"}, {"in", "out", "bad", "in"}, {"timer", "msg", "connect", "reuse"}};
    for (int i = 0; i < 3; i++)
        if (g_mode == (i == 0 ? "nlife" : i == 1 ? "nio" : "nmisc"))
            sub = subs[i][R.below(4)];
    profile(rng);
    setup(rng);
#ifdef NET
    M = new lce::CNetWorkerMgr<App>;
    P.rm = P.udp = 0;
    int nw = W(1, 4);
#else
    M = &CCommMgr::getInstance();
    new App;
    const int nw = 0;
#endif
    bool limit = sub == "limit";
    g_max = limit ? W(40, 46) : pct(50) ? 10000 : 200;
#ifdef NET
    M->init(nw, g_max);
    M->setErrHandler(mgrerror);
#else
    M->init(g_max);
#endif
    g_fdcap = (int)(g_max * 1.2);
    int nobj0 = vk::nobj();
    // servers
    int ns = limit ? 1 : W(1, 3), nu = sub == "udp" ? W(1, 2) : P.udp ? 1 : 0, nc = P.outc ? W(1, 2) : 0;
    if (P.rm && ns < 2)
        ns = 2;
    for (int i = 0; i < ns + nu + nc; i++)
    {
        SrvDef s;
        s.removed = false;
        s.type = i < ns ? 0 : i < ns + nu ? 1 : 2;
        s.port = 8000 + i;
        s.pkg = R.below(5);
        s.ir = pct(50) ? W(16, 64) : W(64, 600);
        s.mr = s.ir * W(1, 4) + W(0, 5);
        if (s.pkg == 3)
            s.mr += 400;
        if (s.type == 1 && pct(30))
            s.mr = 12000, s.ir = 1000;
        if (P.burst && s.type == 0 && pct(40))
            s.ir = W(2000, 10240), s.mr = s.ir * W(1, 3);
        s.is = W(8, 200);
        s.ms = s.is * W(1, 4) + W(0, 5);
        if (pct(10) && s.type != 1)
            s.ir = 10240, s.mr = 102400, s.is = 10240, s.ms = 102400;
        static const int pk[] = {lce::PKG_RAW, lce::PKG_H2ST3, lce::PKG_H2LT3, lce::PKG_HTTP, lce::PKG_EXT};
#ifdef NET
        if (s.type == 0)
        {
            s.id = M->createSrv("0.0.0.0", s.port, pk[s.pkg], s.ir, s.mr, s.is, s.ms);
            if (s.pkg == 4)
                M->setPkgFilter(s.id, &g_line);
        }
        else
            for (size_t k = 0; k < g_apps.size(); k++)
            {
                s.id = g_apps[k]->createClient(pk[s.pkg], s.ir, s.mr, s.is, s.ms);
                if (s.pkg == 4)
                    g_apps[k]->setPkgFilter(s.id, &g_line);
            }
#else
        s.id = s.type == 2 ? M->createClient(s.ir, s.mr, s.is, s.ms)
                           : M->createSrv(s.type == 0 ? lce::SRV_TCP : lce::SRV_UDP, "0.0.0.0", s.port, s.ir, s.mr, s.is, s.ms);
        M->setProcessor(s.id, app(), pk[s.pkg]);
        if (s.pkg == 4)
            M->setPkgFilter(s.id, &g_line);
#endif
        S.push_back(s);
    }
    std::string sv;
    for (size_t i = 0; i < S.size(); i++)
    {
        static const char *ty[] = {"tcp", "udp", "conn"}, *pk[] = {"raw", "h2s", "h2l", "http", "ext"};
        char b[200];
        snprintf(b, sizeof b, "%s{\"id\":%d,\"type\":\"%s\",\"pkg\":\"%s\",\"mr\":%d,\"ms\":%d}", i ? "," : "", S[i].id, ty[S[i].type], pk[S[i].pkg], S[i].mr, S[i].ms);
        sv += b;
    }
    emit("{\"e\":\"Reset\",\"max\":%d,\"fdcap\":%d,\"srv\":[%s],\"workers\":%d,\"mode\":%s}", g_max, g_fdcap, sv.c_str(), nw, jstr(sub).c_str());
    for (int i = 0; i < 3; i++)
    {
        if (pct(P.timers))
            app()->do_timer();
        if (pct(P.outc))
        {
            App *z = app();
            TH = z->th;
            z->do_connect();
            TH = 0;
        }
    }
    SchedOpts so = random_opts(R, net || sub == "msg");
    so.tick_den = 0;
    sched_start(so);
    g_auto_time = true;
    spawn(reactor, 0);
    if (sub == "msg")
    {
        int ns = W(1, 3);
        for (int i = 0; i < ns; i++)
            spawn(sender, (void *)(long)W(2, 10));
    }
    for (int st = 0; st < P.steps; st++)
    {
        g_burst = false;
        std::vector<int> v = alive();
        int k = R.below(100);
        if ((int)v.size() < P.conns && (v.empty() || k < (limit ? 70 : 20)))
            new_peer();
        else if (!v.empty())
        {
            int cid = v[R.below(v.size())];
            if (pct(P.fin))
                peer_gone(cid, false);
            else if (pct(P.rst))
                peer_gone(cid, true);
            else
                peer_send(cid, pct(P.bad));
            if (P.slow && pct(40))
            {
                int z = v[R.below(v.size())];
                if (C[z].up)
                    vk::w_space(z, pct(30) ? 0 : W(1, 1500));
            }
            if (P.slow && P.rst && pct(12))
                wake_and_go();
        }
        std::vector<int> pd = vk::w_pending();
        if (!pd.empty() && pct(50))
            establish(pd[R.below(pd.size())], pct(70));
        if (P.udp && pct(60))
            for (int i = W(1, 3); i > 0; i--)
                send_dgram();
        if (P.msgs && pct(30))
            app()->do_msg();
        if (pct(P.timers + 5))
            idle(), advance_us((uint64_t)(pct(50) ? W(0, 40000) : W(0, 4000000)) * (g_unit > 1 && pct(60) ? 600000 : 1));
        if (pct(g_burst ? 80 : 40))
            quiet();
        else if (pct(50))
            for (int i = W(1, 12); i > 0; i--)
                point();
    }
    // everything is let through, then everybody leaves
    open_windows();
    std::vector<int> pd = vk::w_pending();
    for (size_t i = 0; i < pd.size(); i++)
        establish(pd[i], true);
    open_windows();
    quiet();
    budget = 0;
    for (int r = 0; r < 3; r++)
    {
        std::vector<int> v = alive();
        for (size_t i = 0; i < v.size(); i++)
            peer_gone(v[i], pct(15));
        pd = vk::w_pending();
        for (size_t i = 0; i < pd.size(); i++)
            establish(pd[i], pct(50));
        open_windows();
        idle();
        advance_us(20000000ull * g_unit);
        quiet();
    }
    if (g_unit > 1)
    {
        advance_us(4400000000ull * 1000);
        quiet();
    }
    int rmd = 0;
    for (size_t i = 0; i < S.size(); i++)
        if (S[i].removed || S[i].type == 2)
            rmd++;
    emit("{\"e\":\"End\",\"objs\":%d,\"base\":%d}", vk::nobj(), nobj0 + (int)S.size() - rmd);
}
int main(int argc, char **argv) { return run_histories(argc, argv, hist); }
