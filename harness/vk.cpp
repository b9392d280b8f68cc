#include "vk.h"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include <set>
namespace vk
{
bool on = false;
static Opts g_o;
static Hooks g_nohooks, *g_h = &g_nohooks;
static vrt::Rng g_rng;
static std::map<int, Obj *> *g_fd;   // fd -> object
static std::map<int, Obj *> *g_oid;  // live objects
static std::map<int, Obj *> *g_cid;  // tcp connections, also closed ones
static int g_noid, g_ncid;

Opts &opts() { return g_o; }
void start(uint64_t seed, const Opts &o, Hooks *h)
{
    g_rng = vrt::Rng(seed);
    g_o = o;
    if (h)
        g_h = h;
    g_fd = new std::map<int, Obj *>;
    g_oid = new std::map<int, Obj *>;
    g_cid = new std::map<int, Obj *>;
    on = true;
}
static bool chance(uint32_t den) { return den && g_rng.chance(1, den); }
static Obj *get(int fd)
{
    if (!on)
        return 0;
    std::map<int, Obj *>::iterator i = g_fd->find(fd);
    return i == g_fd->end() ? 0 : i->second;
}
static Obj *mk(int kind, bool reserve = true)
{
    int fd = -1;
    if (reserve)
    {
        fd = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC);
        if (fd < 0)
            return 0;
    }
    Obj *o = new Obj();
    o->kind = kind;
    o->fd = fd;
    o->oid = ++g_noid;
    o->cid = -1;
    (*g_oid)[o->oid] = o;
    if (fd >= 0)
        (*g_fd)[fd] = o;
    return o;
}
int nobj() { return (int)g_fd->size(); }
static void setnb(Obj *o, bool b) { o->nonblock = b; }
static uint32_t readiness(Obj *o)
{
    uint32_t r = 0;
    switch (o->kind)
    {
    case PIPE_R:
        if (!o->pipe->buf.empty())
            r |= EPOLLIN;
        if (!o->pipe->wr)
            r |= EPOLLHUP;
        break;
    case PIPE_W:
        if (o->pipe->buf.size() < g_o.pipe_cap)
            r |= EPOLLOUT;
        if (!o->pipe->rd)
            r |= EPOLLERR;
        break;
    case EVENTFD:
        if (o->cnt)
            r |= EPOLLIN;
        r |= EPOLLOUT;
        break;
    case SOCK:
        r |= EPOLLOUT | EPOLLHUP;
        break;
    case LISTEN:
        if (!o->backlog.empty())
            r |= EPOLLIN;
        break;
    case UDP:
        if (!o->dg.empty())
            r |= EPOLLIN;
        r |= EPOLLOUT;
        break;
    case TCP:
        if (o->st == NEW)
            r |= EPOLLOUT | EPOLLHUP;
        else if (o->st == FAILED)
            r |= EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP;
        else if (o->st == READY)
        {
            if (!o->in.empty() || o->fin || o->rst)
                r |= EPOLLIN;
            if (o->fin || o->rst)
                r |= EPOLLRDHUP;
            if (o->space > 0 || o->rst || o->shutw)
                r |= EPOLLOUT;
            if (o->rst)
                r |= EPOLLHUP | (o->err ? EPOLLERR : 0);
            if (o->fin && o->shutw)
                r |= EPOLLHUP;
        }
        break;
    }
    return r;
}
static bool p_in(void *p) { return (readiness((Obj *)p) & (EPOLLIN | EPOLLHUP | EPOLLERR)) != 0; }
static bool p_out(void *p) { return (readiness((Obj *)p) & (EPOLLOUT | EPOLLHUP | EPOLLERR)) != 0; }
static bool p_conn(void *p) { return ((Obj *)p)->st != CONNECTING; }
static bool wait_for(bool (*f)(void *), Obj *o, int64_t us, const char *what)
{
    if (f(o))
        return true;
    if (!vrt::sched_on())
        return false;
    return vrt::wait_until(f, o, us, what, true);
}
static void sched_point()
{
    if (vrt::sched_on())
        vrt::point();
}
// ---- world
Obj *listener(uint16_t port)
{
    for (std::map<int, Obj *>::iterator i = g_fd->begin(); i != g_fd->end(); ++i)
        if (i->second->kind == LISTEN && i->second->port == port)
            return i->second;
    return 0;
}
Obj *udp(uint16_t port)
{
    for (std::map<int, Obj *>::iterator i = g_fd->begin(); i != g_fd->end(); ++i)
        if (i->second->kind == UDP && i->second->port == port)
            return i->second;
    return 0;
}
static Obj *mkconn(uint32_t ip, uint16_t pport, size_t space)
{
    Obj *o = new Obj();
    o->kind = TCP;
    o->fd = -1;
    o->oid = ++g_noid;
    o->cid = ++g_ncid;
    o->pip = ip;
    o->pport = pport;
    o->space = space;
    (*g_cid)[o->cid] = o;
    return o;
}
int w_connect(uint16_t port, uint32_t ip, uint16_t pport, size_t space)
{
    Obj *l = listener(port);
    if (!l || (int)l->backlog.size() >= l->backmax)
        return -1;
    Obj *o = mkconn(ip, pport, space);
    o->incoming = true;
    o->st = READY;
    l->backlog.push_back(o->cid);
    return o->cid;
}
Obj *conn(int cid) { return g_cid->count(cid) ? (*g_cid)[cid] : 0; }
int ncids() { return g_ncid; }
void w_send(int cid, const std::string &d)
{
    Obj *o = conn(cid);
    if (!o->fin && !o->rst && !o->fdclosed)
        o->in += d;
}
void w_fin(int cid)
{
    Obj *o = conn(cid);
    if (!o->rst)
        o->fin = true;
}
void w_rst(int cid, int err)
{
    Obj *o = conn(cid);
    o->rst = true;
    o->err = err ? err : ECONNRESET;
    o->in.clear();
}
void w_space(int cid, size_t n) { conn(cid)->space = n; }
std::string w_take(int cid)
{
    std::string s;
    s.swap(conn(cid)->out);
    return s;
}
std::vector<int> w_pending()
{
    std::vector<int> r;
    for (std::map<int, Obj *>::iterator i = g_cid->begin(); i != g_cid->end(); ++i)
        if (i->second->st == CONNECTING && !i->second->fdclosed)
            r.push_back(i->first);
    return r;
}
void w_establish(int cid, int err, size_t space)
{
    Obj *o = conn(cid);
    if (o->st != CONNECTING)
        return;
    o->space = space;
    o->st = err ? FAILED : READY;
    o->err = err;
}
int w_udp(uint16_t port, const Dgram &d)
{
    Obj *o = udp(port);
    if (!o)
        return -1;
    o->dg.push_back(d);
    return 0;
}
static void fill(struct sockaddr *a, socklen_t *l, uint32_t ip, uint16_t port)
{
    if (!a || !l)
        return;
    struct sockaddr_in s;
    memset(&s, 0, sizeof s);
    s.sin_family = AF_INET;
    s.sin_port = htons(port);
    s.sin_addr.s_addr = htonl(ip);
    memcpy(a, &s, std::min((size_t)*l, sizeof s));
    *l = sizeof s;
}
// ---- stream i/o
static ssize_t do_recv(Obj *o, void *p, size_t n, int flags)
{
    bool nb = o->nonblock || (flags & MSG_DONTWAIT);
    if (o->kind == SOCK || (o->kind == TCP && o->st == NEW) || o->kind == LISTEN)
    {
        errno = ENOTCONN;
        return -1;
    }
    if (o->st == FAILED)
    {
        if (o->err)
        {
            errno = o->err;
            o->err = 0;
            return -1;
        }
        return 0;
    }
    if (chance(g_o.eintr))
    {
        g_h->rfault(o, EINTR);
        errno = EINTR;
        return -1;
    }
    if (nb && chance(g_o.eagain_recv))
    {
        g_h->rfault(o, EAGAIN);
        errno = EAGAIN;
        return -1;
    }
    if (o->st == CONNECTING || (o->in.empty() && !o->fin && !o->rst))
    {
        if (nb || !wait_for(p_in, o, o->rto ? o->rto : -1, "recv"))
        {
            g_h->rfault(o, EAGAIN);
            errno = EAGAIN;
            return -1;
        }
    }
    if (o->rst)
    {
        if (o->err)
        {
            int e = o->err;
            o->err = 0;
            g_h->rfault(o, e);
            errno = e;
            return -1;
        }
        g_h->recvd(o, 0, 0);
        return 0;
    }
    if (o->in.empty())
    {
        if (n)
            g_h->recvd(o, 0, 0);
        return 0;
    }
    size_t k = std::min(n, o->in.size());
    if (k > 1 && chance(g_o.short_recv))
        k = 1 + g_rng.below(g_rng.chance(1, 2) ? k : std::min<size_t>(k, 8));
    memcpy(p, o->in.data(), k);
    if (!(flags & MSG_PEEK))
    {
        o->in.erase(0, k);
        o->nin += k;
        if (k)
            g_h->recvd(o, (const char *)p, (int)k);
    }
    return k;
}
static ssize_t do_send(Obj *o, const void *p, size_t n, int flags)
{
    bool nb = o->nonblock || (flags & MSG_DONTWAIT);
    if (o->kind != TCP || o->st == NEW)
    {
        if (!(flags & MSG_NOSIGNAL))
            raise(SIGPIPE);
        errno = EPIPE;
        return -1;
    }
    if (o->st == CONNECTING)
    {
        if (nb || !wait_for(p_conn, o, o->sto ? o->sto : -1, "send"))
        {
            errno = EAGAIN;
            return -1;
        }
    }
    if (o->st == FAILED || o->rst || o->shutw)
    {
        if (o->err)
        {
            errno = o->err;
            o->err = 0;
            return -1;
        }
        if (!(flags & MSG_NOSIGNAL))
            raise(SIGPIPE);
        errno = EPIPE;
        return -1;
    }
    if (n == 0)
        return 0;
    if (chance(g_o.eintr))
    {
        errno = EINTR;
        return -1;
    }
    if (nb && chance(g_o.eagain_send))
    {
        errno = EAGAIN;
        return -1;
    }
    size_t done = 0;
    while (done < n)
    {
        if (o->space == 0)
        {
            if (done && nb)
                break;
            if (nb || !wait_for(p_out, o, o->sto ? o->sto : -1, "send"))
            {
                if (done)
                    break;
                errno = EAGAIN;
                return -1;
            }
            if (o->rst)
            {
                if (done)
                    break;
                errno = o->err ? o->err : EPIPE;
                o->err = 0;
                if (errno == EPIPE && !(flags & MSG_NOSIGNAL))
                    raise(SIGPIPE);
                return -1;
            }
        }
        size_t k = std::min(n - done, o->space);
        bool sh = false;
        if (k > 1 && chance(g_o.short_send))
        {
            k = 1 + g_rng.below(k);
            sh = true;
        }
        o->space -= k;
        o->out.append((const char *)p + done, k);
        o->nout += k;
        g_h->sent(o, (const char *)p + done, (int)k);
        done += k;
        if (sh)
            break;
    }
    return done;
}
static ssize_t udp_recv(Obj *o, void *p, size_t n, int flags, struct sockaddr *a, socklen_t *l, bool *trunc)
{
    bool nb = o->nonblock || (flags & MSG_DONTWAIT);
    if (chance(g_o.eintr) || (nb && chance(g_o.eagain_recv)))
    {
        g_h->rfault(o, EAGAIN);
        errno = EAGAIN;
        return -1;
    }
    if (o->dg.empty() && (nb || !wait_for(p_in, o, o->rto ? o->rto : -1, "recvfrom")))
    {
        g_h->rfault(o, EAGAIN);
        errno = EAGAIN;
        return -1;
    }
    Dgram d = o->dg.front();
    size_t k = std::min(n, d.data.size());
    memcpy(p, d.data.data(), k);
    fill(a, l, d.ip, d.port);
    if (trunc)
        *trunc = k < d.data.size();
    if (!(flags & MSG_PEEK))
    {
        o->dg.pop_front();
        g_h->udp_recvd(o, d, (int)k);
    }
    return (flags & MSG_TRUNC) ? d.data.size() : k;
}
static ssize_t udp_send(Obj *o, const void *p, size_t n, int flags, const struct sockaddr *a)
{
    Dgram d;
    const struct sockaddr_in *s = (const struct sockaddr_in *)a;
    d.ip = s ? ntohl(s->sin_addr.s_addr) : o->pip;
    d.port = s ? ntohs(s->sin_port) : o->pport;
    d.tag = 0;
    if (n > 65507)
    {
        errno = EMSGSIZE;
        return -1;
    }
    if (!s && !o->pport)
    {
        errno = EDESTADDRREQ;
        return -1;
    }
    if (o->err)
    {
        errno = o->err;
        o->err = 0;
        return -1;
    }
    d.data.assign((const char *)p, n);
    if ((o->nonblock || (flags & MSG_DONTWAIT)) && chance(g_o.eagain_send))
    {
        errno = EAGAIN;
        return -1;
    }
    o->sent.push_back(d);
    g_h->udp_sent(o, d);
    return n;
}
struct EWait
{
    Obj *ep;
};
static bool p_epoll(void *p)
{
    Obj *ep = (Obj *)p;
    for (std::map<int, std::pair<uint32_t, uint64_t> >::iterator i = ep->watch.begin(); i != ep->watch.end(); ++i)
    {
        std::map<int, Obj *>::iterator o = g_oid->find(i->first);
        if (o != g_oid->end() && (readiness(o->second) & (i->second.first | EPOLLERR | EPOLLHUP)))
            return true;
    }
    return false;
}
static int do_epoll_wait(Obj *ep, struct epoll_event *ev, int max, int tmo)
{
    if (chance(g_o.epoll_eintr))
    {
        errno = EINTR;
        return -1;
    }
    if (!p_epoll(ep))
    {
        if (tmo == 0)
            return 0;
        if (!vrt::wait_until(p_epoll, ep, tmo < 0 ? -1 : (int64_t)tmo * 1000, "epoll", true))
            return 0;
    }
    std::vector<struct epoll_event> v;
    for (std::map<int, std::pair<uint32_t, uint64_t> >::iterator i = ep->watch.begin(); i != ep->watch.end(); ++i)
    {
        std::map<int, Obj *>::iterator o = g_oid->find(i->first);
        if (o == g_oid->end())
            continue;
        uint32_t r = readiness(o->second) & (i->second.first | EPOLLERR | EPOLLHUP);
        if (r)
        {
            struct epoll_event e;
            e.events = r;
            e.data.u64 = i->second.second;
            v.push_back(e);
        }
    }
    for (size_t i = v.size(); i > 1; i--)
        std::swap(v[i - 1], v[g_rng.below(i)]);
    int n = std::min<int>(max, v.size());
    for (int i = 0; i < n; i++)
        ev[i] = v[i];
    return n;
}
struct PollArg
{
    struct pollfd *p;
    int n;
};
static bool p_poll(void *a)
{
    PollArg &q = *(PollArg *)a;
    for (int i = 0; i < q.n; i++)
    {
        Obj *o = get(q.p[i].fd);
        if (o && (readiness(o) & ((uint32_t)(unsigned short)q.p[i].events | EPOLLERR | EPOLLHUP)))
            return true;
    }
    return false;
}
static int do_poll(struct pollfd *p, int n, int64_t us)
{
    PollArg q = {p, n};
    if (!p_poll(&q) && us != 0)
        vrt::wait_until(p_poll, &q, us, "poll", true);
    int c = 0;
    for (int i = 0; i < n; i++)
    {
        Obj *o = get(p[i].fd);
        p[i].revents = 0;
        if (o)
            p[i].revents = (short)(readiness(o) & ((uint32_t)(unsigned short)p[i].events | EPOLLERR | EPOLLHUP));
        else if (p[i].fd >= 0)
            p[i].revents = POLLNVAL;
        if (p[i].revents)
            c++;
    }
    return c;
}
static void destroy(Obj *o)
{
    switch (o->kind)
    {
    case PIPE_R:
        o->pipe->rd = false;
        break;
    case PIPE_W:
        o->pipe->wr = false;
        break;
    case LISTEN:
        for (size_t i = 0; i < o->backlog.size(); i++)
        {
            Obj *c = conn(o->backlog[i]);
            c->fdclosed = true;
        }
        break;
    }
    for (std::map<int, Obj *>::iterator i = g_oid->begin(); i != g_oid->end(); ++i)
        if (i->second->kind == EPOLL)
            i->second->watch.erase(o->oid);
    g_oid->erase(o->oid);
    o->fdclosed = true;
}
}
using namespace vk;
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)
extern "C"
{
int socket(int dom, int type, int proto)
{
    if (!on || dom != AF_INET)
        return (int)syscall(SYS_socket, dom, type, proto);
    sched_point();
    int t = type & 0xf;
    Obj *o = mk(t == SOCK_DGRAM ? UDP : TCP);
    if (!o)
        return -1;
    o->nonblock = (type & SOCK_NONBLOCK) != 0;
    o->st = NEW;
    if (o->kind == TCP)
    {
        o->cid = ++g_ncid;
        (*g_cid)[o->cid] = o;
        g_h->sock(o);
    }
    return o->fd;
}
int bind(int fd, const struct sockaddr *a, socklen_t l)
{
    Obj *o = get(fd);
    if (!o)
        return (int)syscall(SYS_bind, fd, a, l);
    o->port = ntohs(((const struct sockaddr_in *)a)->sin_port);
    return 0;
}
int listen(int fd, int n)
{
    Obj *o = get(fd);
    if (!o)
        return (int)syscall(SYS_listen, fd, n);
    if (o->cid >= 0)
    {
        g_cid->erase(o->cid);
        o->cid = -1;
    }
    o->kind = LISTEN;
    o->backmax = n < 1 ? 1 : n;
    return 0;
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int flags)
{
    Obj *o = get(fd);
    if (!o)
        return (int)syscall(SYS_accept4, fd, a, l, flags);
    sched_point();
    if (o->kind != LISTEN)
    {
        errno = EINVAL;
        return -1;
    }
    if (chance(g_o.eintr))
    {
        errno = EINTR;
        return -1;
    }
    if (!o->backlog.empty() && chance(g_o.accept_err))
    {
        static const int errs[] = {ECONNABORTED, EMFILE, ENFILE, ENOBUFS, EPROTO};
        int e = errs[g_rng.below(5)];
        g_h->accept_fault(o, e);
        errno = e;
        return -1;
    }
    if (o->backlog.empty() && (o->nonblock || !wait_for(p_in, o, -1, "accept")))
    {
        errno = EAGAIN;
        return -1;
    }
    Obj *c = conn(o->backlog.front());
    int nfd = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC);
    if (nfd < 0)
        return -1;
    o->backlog.pop_front();
    c->fd = nfd;
    c->port = o->port;
    c->nonblock = (flags & SOCK_NONBLOCK) != 0;
    (*g_fd)[nfd] = c;
    (*g_oid)[c->oid] = c;
    fill(a, l, c->pip, c->pport);
    g_h->accepted(c);
    return nfd;
}
int accept(int fd, struct sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }
int connect(int fd, const struct sockaddr *a, socklen_t l)
{
    Obj *o = get(fd);
    if (!o)
        return (int)syscall(SYS_connect, fd, a, l);
    sched_point();
    const struct sockaddr_in *s = (const struct sockaddr_in *)a;
    o->pip = ntohl(s->sin_addr.s_addr);
    o->pport = ntohs(s->sin_port);
    if (o->kind == UDP)
        return 0;
    if (o->st == CONNECTING)
    {
        errno = EALREADY;
        return -1;
    }
    if (o->st == READY)
    {
        errno = EISCONN;
        return -1;
    }
    int r = (int)g_rng.below(100);
    if (r < g_o.connect_err)
    {
        static const int errs[] = {ECONNREFUSED, ENETUNREACH, EHOSTUNREACH, EADDRNOTAVAIL};
        int e = errs[g_rng.below(4)];
        g_h->connecting(o, e);
        errno = e;
        return -1;
    }
    if (r < g_o.connect_err + g_o.connect_now)
    {
        o->st = READY;
        o->space = 65536;
        g_h->connecting(o, 0);
        return 0;
    }
    o->st = CONNECTING;
    g_h->connecting(o, EINPROGRESS);
    if (o->nonblock)
    {
        errno = EINPROGRESS;
        return -1;
    }
    if (!wait_for(p_conn, o, o->sto ? o->sto : -1, "connect"))
    {
        errno = EINPROGRESS;
        return -1;
    }
    if (o->st == FAILED)
    {
        errno = o->err;
        o->err = 0;
        return -1;
    }
    return 0;
}
ssize_t recv(int fd, void *p, size_t n, int flags)
{
    Obj *o = get(fd);
    if (!o)
        return syscall(SYS_recvfrom, fd, p, n, flags, 0, 0);
    sched_point();
    if (o->kind == UDP)
        return udp_recv(o, p, n, flags, 0, 0, 0);
    return do_recv(o, p, n, flags);
}
ssize_t recvfrom(int fd, void *p, size_t n, int flags, struct sockaddr *a, socklen_t *l)
{
    Obj *o = get(fd);
    if (!o)
        return syscall(SYS_recvfrom, fd, p, n, flags, a, l);
    sched_point();
    if (o->kind == UDP)
        return udp_recv(o, p, n, flags, a, l, 0);
    return do_recv(o, p, n, flags);
}
ssize_t recvmsg(int fd, struct msghdr *m, int flags)
{
    Obj *o = get(fd);
    if (!o)
        return syscall(SYS_recvmsg, fd, m, flags);
    sched_point();
    bool tr = false;
    ssize_t r;
    size_t n = m->msg_iovlen ? m->msg_iov[0].iov_len : 0;
    if (o->kind == UDP)
        r = udp_recv(o, m->msg_iovlen ? m->msg_iov[0].iov_base : 0, n, flags, (struct sockaddr *)m->msg_name, &m->msg_namelen, &tr);
    else
        r = do_recv(o, m->msg_iovlen ? m->msg_iov[0].iov_base : 0, n, flags);
    m->msg_flags = tr ? MSG_TRUNC : 0;
    m->msg_controllen = 0;
    return r;
}
ssize_t send(int fd, const void *p, size_t n, int flags)
{
    Obj *o = get(fd);
    if (!o)
        return syscall(SYS_sendto, fd, p, n, flags, 0, 0);
    sched_point();
    if (o->kind == UDP)
        return udp_send(o, p, n, flags, 0);
    return do_send(o, p, n, flags);
}
ssize_t sendto(int fd, const void *p, size_t n, int flags, const struct sockaddr *a, socklen_t l)
{
    Obj *o = get(fd);
    if (!o)
        return syscall(SYS_sendto, fd, p, n, flags, a, l);
    sched_point();
    if (o->kind == UDP)
        return udp_send(o, p, n, flags, a);
    return do_send(o, p, n, flags);
}
static std::string gather(const struct iovec *v, int n)
{
    std::string s;
    for (int i = 0; i < n; i++)
        s.append((const char *)v[i].iov_base, v[i].iov_len);
    return s;
}
ssize_t sendmsg(int fd, const struct msghdr *m, int flags)
{
    Obj *o = get(fd);
    if (!o)
        return syscall(SYS_sendmsg, fd, m, flags);
    sched_point();
    std::string s = gather(m->msg_iov, (int)m->msg_iovlen);
    if (o->kind == UDP)
        return udp_send(o, s.data(), s.size(), flags, (const struct sockaddr *)m->msg_name);
    return do_send(o, s.data(), s.size(), flags);
}
static bool p_pipew(void *p) { return ((Obj *)p)->pipe->buf.size() < g_o.pipe_cap || !((Obj *)p)->pipe->rd; }
ssize_t read(int fd, void *p, size_t n)
{
    Obj *o = get(fd);
    if (!o)
        return syscall(SYS_read, fd, p, n);
    sched_point();
    switch (o->kind)
    {
    case PIPE_R:
        if (o->pipe->buf.empty())
        {
            if (!o->pipe->wr)
                return 0;
            if (o->nonblock || !wait_for(p_in, o, -1, "read"))
            {
                errno = EAGAIN;
                return -1;
            }
        }
        n = std::min(n, o->pipe->buf.size());
        memcpy(p, o->pipe->buf.data(), n);
        o->pipe->buf.erase(0, n);
        return n;
    case EVENTFD:
    {
        if (n < 8)
        {
            errno = EINVAL;
            return -1;
        }
        if (o->cnt == 0 && (o->nonblock || !wait_for(p_in, o, -1, "read")))
        {
            errno = EAGAIN;
            return -1;
        }
        uint64_t v = o->esem ? 1 : o->cnt;
        o->cnt -= v;
        memcpy(p, &v, 8);
        return 8;
    }
    case UDP:
        return udp_recv(o, p, n, 0, 0, 0, 0);
    default:
        return do_recv(o, p, n, 0);
    }
}
ssize_t write(int fd, const void *p, size_t n)
{
    Obj *o = get(fd);
    if (!o)
        return syscall(SYS_write, fd, p, n);
    sched_point();
    switch (o->kind)
    {
    case PIPE_W:
    {
        size_t done = 0;
        while (done < n)
        {
            if (!p_pipew(o))
            {
                if (done && o->nonblock)
                    break;
                if (o->nonblock || !wait_for(p_pipew, o, -1, "write"))
                {
                    errno = EAGAIN;
                    return -1;
                }
            }
            if (!o->pipe->rd)
            {
                raise(SIGPIPE);
                errno = EPIPE;
                return -1;
            }
            size_t k = std::min(n - done, g_o.pipe_cap - o->pipe->buf.size());
            o->pipe->buf.append((const char *)p + done, k);
            done += k;
        }
        return done;
    }
    case EVENTFD:
    {
        uint64_t v;
        if (n < 8)
        {
            errno = EINVAL;
            return -1;
        }
        memcpy(&v, p, 8);
        o->cnt += v;
        return 8;
    }
    case UDP:
        return udp_send(o, p, n, 0, 0);
    default:
        return do_send(o, p, n, 0);
    }
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
    if (!get(fd))
        return syscall(SYS_writev, fd, v, n);
    std::string s = gather(v, n);
    return write(fd, s.data(), s.size());
}
ssize_t readv(int fd, const struct iovec *v, int n)
{
    if (!get(fd))
        return syscall(SYS_readv, fd, v, n);
    return n ? read(fd, v[0].iov_base, v[0].iov_len) : 0;
}
int shutdown(int fd, int how)
{
    Obj *o = get(fd);
    if (!o)
        return (int)syscall(SYS_shutdown, fd, how);
    if (how == SHUT_WR || how == SHUT_RDWR)
        o->shutw = true;
    if (how == SHUT_RD || how == SHUT_RDWR)
        o->fin = true;
    return 0;
}
int close(int fd)
{
    Obj *o = get(fd);
    if (!o)
    {
        int r = (int)syscall(SYS_close, fd);
        if (r < 0 && errno == EBADF && on)
            g_h->badclose(fd);
        return r;
    }
    sched_point();
    o = get(fd);
    if (!o)
    {
        g_h->badclose(fd);
        errno = EBADF;
        return -1;
    }
    g_h->closed(o);
    g_fd->erase(fd);
    destroy(o);
    syscall(SYS_close, fd);
    return 0;
}
int epoll_create1(int flags)
{
    if (!on)
        return (int)syscall(SYS_epoll_create1, flags);
    Obj *o = mk(EPOLL);
    return o ? o->fd : -1;
}
int epoll_create(int n)
{
    if (n <= 0)
    {
        errno = EINVAL;
        return -1;
    }
    return epoll_create1(0);
}
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
    Obj *e = get(ep);
    if (!e)
        return (int)syscall(SYS_epoll_ctl, ep, op, fd, ev);
    sched_point();
    Obj *o = get(fd);
    if (!o || e->kind != EPOLL)
    {
        errno = o ? EINVAL : EBADF;
        return -1;
    }
    bool has = e->watch.count(o->oid);
    if (op == EPOLL_CTL_ADD)
    {
        if (has)
        {
            errno = EEXIST;
            return -1;
        }
    }
    else if (!has)
    {
        errno = ENOENT;
        return -1;
    }
    if (op == EPOLL_CTL_DEL)
        e->watch.erase(o->oid);
    else
        e->watch[o->oid] = std::make_pair((uint32_t)ev->events, (uint64_t)ev->data.u64);
    return 0;
}
int epoll_wait(int ep, struct epoll_event *ev, int max, int tmo)
{
    Obj *e = get(ep);
    if (!e)
        return (int)syscall(SYS_epoll_wait, ep, ev, max, tmo);
    sched_point();
    return do_epoll_wait(e, ev, max, tmo);
}
int epoll_pwait(int ep, struct epoll_event *ev, int max, int tmo, const sigset_t *) { return epoll_wait(ep, ev, max, tmo); }
int poll(struct pollfd *p, nfds_t n, int tmo)
{
    bool any = false;
    for (nfds_t i = 0; i < n; i++)
        if (get(p[i].fd))
            any = true;
    if (!any)
        return (int)syscall(SYS_poll, p, n, tmo);
    sched_point();
    return do_poll(p, (int)n, tmo < 0 ? -1 : (int64_t)tmo * 1000);
}
int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
    bool any = false;
    std::vector<struct pollfd> v;
    for (int i = 0; i < n; i++)
    {
        short e = 0;
        if (r && FD_ISSET(i, r))
            e |= POLLIN;
        if (w && FD_ISSET(i, w))
            e |= POLLOUT;
        if (e || (x && FD_ISSET(i, x)))
        {
            struct pollfd p = {i, e, 0};
            v.push_back(p);
            if (get(i))
                any = true;
        }
    }
    if (!any && n > 0 && !v.empty())
    {
        REAL(int, "select", int, fd_set *, fd_set *, fd_set *, struct timeval *);
        return real(n, r, w, x, tv);
    }
    sched_point();
    int64_t us = tv ? (int64_t)tv->tv_sec * 1000000 + tv->tv_usec : -1;
    do_poll(v.data(), (int)v.size(), us);
    if (r)
        FD_ZERO(r);
    if (w)
        FD_ZERO(w);
    if (x)
        FD_ZERO(x);
    int c = 0;
    for (size_t i = 0; i < v.size(); i++)
    {
        if (r && (v[i].events & POLLIN) && (v[i].revents & (POLLIN | POLLHUP | POLLERR)))
            FD_SET(v[i].fd, r), c++;
        if (w && (v[i].events & POLLOUT) && (v[i].revents & (POLLOUT | POLLERR)))
            FD_SET(v[i].fd, w), c++;
    }
    return c;
}
int pipe2(int f[2], int flags)
{
    if (!on)
        return (int)syscall(SYS_pipe2, f, flags);
    Pipe *p = new Pipe();
    p->rd = p->wr = true;
    Obj *a = mk(PIPE_R), *b = mk(PIPE_W);
    a->pipe = b->pipe = p;
    a->nonblock = b->nonblock = (flags & O_NONBLOCK) != 0;
    f[0] = a->fd;
    f[1] = b->fd;
    return 0;
}
int pipe(int f[2]) { return pipe2(f, 0); }
int eventfd(unsigned int v, int flags)
{
    if (!on)
        return (int)syscall(SYS_eventfd2, v, flags);
    Obj *o = mk(EVENTFD);
    o->cnt = v;
    o->nonblock = (flags & EFD_NONBLOCK) != 0;
    o->esem = (flags & EFD_SEMAPHORE) != 0;
    return o->fd;
}
static int fcntl_common(int fd, int cmd, long arg)
{
    Obj *o = get(fd);
    if (!o)
        return (int)syscall(SYS_fcntl, fd, cmd, arg);
    switch (cmd)
    {
    case F_GETFL:
        return O_RDWR | (o->nonblock ? O_NONBLOCK : 0);
    case F_SETFL:
        o->nonblock = (arg & O_NONBLOCK) != 0;
        return 0;
    case F_GETFD:
    case F_SETFD:
        return 0;
    }
    return (int)syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return fcntl_common(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return fcntl_common(fd, cmd, a);
}
int ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    void *a = va_arg(ap, void *);
    va_end(ap);
    Obj *o = get(fd);
    if (!o)
        return (int)syscall(SYS_ioctl, fd, req, a);
    if (req == FIONBIO)
    {
        o->nonblock = *(int *)a != 0;
        return 0;
    }
    if (req == FIONREAD)
    {
        *(int *)a = o->kind == UDP ? (o->dg.empty() ? 0 : (int)o->dg.front().data.size()) : (int)o->in.size();
        return 0;
    }
    errno = EINVAL;
    return -1;
}
int setsockopt(int fd, int lv, int opt, const void *v, socklen_t l)
{
    Obj *o = get(fd);
    if (!o)
        return (int)syscall(SYS_setsockopt, fd, lv, opt, v, l);
    if (lv == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO))
    {
        const struct timeval *t = (const struct timeval *)v;
        int64_t us = (int64_t)t->tv_sec * 1000000 + t->tv_usec;
        (opt == SO_RCVTIMEO ? o->rto : o->sto) = us;
    }
    return 0;
}
int getsockopt(int fd, int lv, int opt, void *v, socklen_t *l)
{
    Obj *o = get(fd);
    if (!o)
        return (int)syscall(SYS_getsockopt, fd, lv, opt, v, l);
    if (lv == SOL_SOCKET && opt == SO_ERROR)
    {
        *(int *)v = o->err;
        o->err = 0;
        return 0;
    }
    if (v && l && *l >= sizeof(int))
        *(int *)v = 0;
    return 0;
}
int getpeername(int fd, struct sockaddr *a, socklen_t *l)
{
    Obj *o = get(fd);
    if (!o)
        return (int)syscall(SYS_getpeername, fd, a, l);
    if (o->kind == TCP && o->st != READY)
    {
        errno = ENOTCONN;
        return -1;
    }
    fill(a, l, o->pip, o->pport);
    return 0;
}
int getsockname(int fd, struct sockaddr *a, socklen_t *l)
{
    Obj *o = get(fd);
    if (!o)
        return (int)syscall(SYS_getsockname, fd, a, l);
    fill(a, l, 0x7f000001, o->port);
    return 0;
}
}
