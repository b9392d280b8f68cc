// CTcpConnector and CUdpConnector over a small system of sockets with a virtual clock, played here: peers that answer late or
// never, streams in pieces, full windows, errors.
#include "vrt.h"
#include "dutil.h"
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <limits.h>
#include <map>
#include <net/if.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include "CTcpConnector.h"
#include "CUdpConnector.h"
using namespace vrt;
typedef std::string S;
static Rng *R;
static S A(const S &s) { return arr(s.data(), s.size()); }
static int64_t now() { return (int64_t)now_ms() - (int64_t)(T0_US / 1000); }
struct Plan
{
    int k; // 0 ok at once, 1 ok after d, 2 refused after d, 3 no answer, 4 refused at once, 5 no socket
    int d;
} g_plan;
struct Piece
{
    int64_t t;
    int n; // in all
};
struct Sock
{
    int con; // number of the connection, once it is made
    bool udp, nonblock, connecting;
    int64_t done; // end of connecting
    bool good;
    int64_t rto, sto;
    S addr;
    std::vector<Piece> in;
    int64_t fin, rst;
    int pos;
    bool told;
};
static std::map<int, Sock> g_s;
static int g_base, g_cons;
static S g_got;      // taken by the system in this call
static S g_dgot;     // datagrams taken in this call, JSON
static bool g_senderr;
static int g_take, g_block; // what a send takes at most, and after how long (-1: never)
static bool g_bindfail;
static S g_bound;
static int g_lport;
static std::vector<std::pair<int64_t, S> > g_dq;
static std::vector<S> g_ifs;
static S name(const struct sockaddr *a)
{
    const struct sockaddr_in *s = (const struct sockaddr_in *)a;
    char b[40], c[60];
    inet_ntop(AF_INET, &s->sin_addr, b, sizeof b);
    snprintf(c, sizeof c, "%s:%d", b, ntohs(s->sin_port));
    return c;
}
static S D(int c, int a, int n)
{
    S s;
    for (int i = 1; i <= n; i++)
        s += (char)((c * 37 + (a + i) * 11 + (a + i) / 256) % 251);
    return s;
}
static Sock *sim(int fd)
{
    std::map<int, Sock>::iterator it = g_s.find(fd);
    return it == g_s.end() ? NULL : &it->second;
}
static void wait_to(int64_t t)
{
    if (t > now())
        advance_us((uint64_t)(t - now()) * 1000);
}
static void made(Sock &s)
{
    s.con = ++g_cons;
    s.connecting = false;
    int64_t t = now();
    int n = 0;
    S a = "[";
    for (int i = R->below(8); i > 0; i--)
    {
        t += R->chance(1, 2) ? 0 : R->chance(1, 2) ? R->below(50) : R->below(4000);
        n += R->chance(1, 40) ? R->range(1000, 70000) : R->range(1, 40);
        Piece p = {t, n};
        s.in.push_back(p);
        char b[60];
        snprintf(b, sizeof b, "%s[%d,%d]", a.size() > 1 ? "," : "", (int)t, n);
        a += b;
    }
    t += R->chance(1, 2) ? 0 : R->below(3000);
    int e = R->below(8);
    s.fin = e < 3 ? t : -1;
    s.rst = e == 3 ? t : -1;
    emit("{\"e\":\"Peer\",\"arr\":%s],\"fin\":%d,\"rst\":%d,\"addr\":\"%s\"}", a.c_str(), (int)s.fin, (int)s.rst, s.addr.c_str());
}
static void progress(Sock &s)
{
    if (s.connecting && s.done >= 0 && s.done <= now() && s.good && !s.con)
        made(s);
}
extern "C" int socket(int, int type, int)
{
    if (g_plan.k == 5)
        return errno = EMFILE, -1;
    int fd = g_base;
    while (g_s.count(fd))
        fd++;
    Sock s;
    s.con = 0, s.udp = (type & 15) == SOCK_DGRAM, s.nonblock = (type & SOCK_NONBLOCK) != 0, s.connecting = false, s.done = -1, s.good = false, s.rto = s.sto = 0, s.fin = s.rst = -1, s.pos = 0, s.told = false;
    g_s[fd] = s;
    return fd;
}
extern "C" int close(int fd)
{
    if (g_s.erase(fd))
        return 0;
    if (fd >= g_base || fd < 0)
        return errno = EBADF, -1;
    return syscall(SYS_close, fd);
}
static int fctl(int fd, int cmd, void *arg)
{
    Sock *s = sim(fd);
    if (!s)
        return fd >= g_base || fd < 0 ? (errno = EBADF, -1) : (int)syscall(SYS_fcntl, fd, cmd, arg);
    if (cmd == F_GETFL)
        return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL)
        s->nonblock = ((long)arg & O_NONBLOCK) != 0;
    return 0;
}
extern "C" int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    void *a = va_arg(ap, void *);
    va_end(ap);
    return fctl(fd, cmd, a);
}
extern "C" int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    void *a = va_arg(ap, void *);
    va_end(ap);
    return fctl(fd, cmd, a);
}
extern "C" int setsockopt(int fd, int lv, int o, const void *p, socklen_t n) noexcept
{
    Sock *s = sim(fd);
    if (!s)
        return errno = EBADF, -1;
    if (lv == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO))
    {
        if (n < sizeof(struct timeval))
            return errno = EINVAL, -1;
        const struct timeval *tv = (const struct timeval *)p;
        if (tv->tv_usec < 0 || tv->tv_usec >= 1000000)
            return errno = EDOM, -1;
        (o == SO_RCVTIMEO ? s->rto : s->sto) = tv->tv_sec * 1000 + tv->tv_usec / 1000;
    }
    return 0;
}
extern "C" int getsockopt(int fd, int lv, int o, void *p, socklen_t *n) noexcept
{
    Sock *s = sim(fd);
    if (!s)
        return errno = EBADF, -1;
    int v = 0;
    if (lv == SOL_SOCKET && o == SO_ERROR)
        v = s->connecting && s->done >= 0 && s->done <= now() && !s->good ? ECONNREFUSED : 0;
    memcpy(p, &v, *n < sizeof v ? *n : sizeof v);
    return 0;
}
extern "C" int getpeername(int fd, struct sockaddr *, socklen_t *) noexcept
{
    Sock *s = sim(fd);
    return s && s->con ? 0 : (errno = s ? ENOTCONN : EBADF, -1);
}
extern "C" int connect(int fd, const struct sockaddr *a, socklen_t)
{
    Sock *s = sim(fd);
    if (!s)
        return errno = EBADF, -1;
    s->addr = name(a);
    if (s->udp)
        return 0;
    if (s->con)
        return errno = EISCONN, -1;
    if (s->connecting)
    {
        progress(*s);
        return s->con ? (errno = EISCONN, -1) : (errno = EALREADY, -1);
    }
    if (g_plan.k == 4)
        return errno = R->chance(1, 2) ? ECONNREFUSED : ENETUNREACH, -1;
    if (g_plan.k == 0)
        return made(*s), 0;
    s->connecting = true;
    s->good = g_plan.k == 1;
    s->done = g_plan.k == 3 ? -1 : now() + g_plan.d;
    if (s->nonblock)
        return errno = EINPROGRESS, -1;
    if (s->done < 0)
        return wait_to(now() + 127000), errno = ETIMEDOUT, -1;
    wait_to(s->done);
    progress(*s);
    return s->good ? 0 : (errno = ECONNREFUSED, -1);
}
// when something can be done with s: *r, *w
static void ready(Sock &s, bool &r, bool &w)
{
    progress(s);
    if (s.connecting)
        r = w = s.done >= 0 && s.done <= now(), r = r && !s.good;
    else if (s.udp)
        r = g_dq.size() && g_dq[0].first <= now(), w = true;
    else
    {
        int n = 0;
        for (size_t i = 0; i < s.in.size() && s.in[i].t <= now(); i++)
            n = s.in[i].n;
        r = s.con && (n > s.pos || (s.fin >= 0 && s.fin <= now()) || (s.rst >= 0 && s.rst <= now()));
        w = s.con != 0;
    }
}
static int64_t next(Sock &s)
{
    int64_t t = LLONG_MAX;
#define C(x)                   \
    if ((x) > now() && (x) < t) \
    t = (x)
    if (s.connecting && s.done >= 0)
        C(s.done);
    for (size_t i = 0; i < s.in.size(); i++)
        C(s.in[i].t);
    C(s.fin);
    C(s.rst);
    if (s.udp)
        for (size_t i = 0; i < g_dq.size(); i++)
            C(g_dq[i].first);
    return t;
}
extern "C" int poll(struct pollfd *p, nfds_t n, int ms)
{
    int64_t end = ms < 0 ? LLONG_MAX : now() + ms;
    for (;;)
    {
        int k = 0;
        int64_t t = LLONG_MAX;
        for (nfds_t i = 0; i < n; i++)
        {
            Sock *s = sim(p[i].fd);
            p[i].revents = 0;
            if (!s)
                p[i].revents = p[i].fd < 0 ? 0 : POLLNVAL;
            else
            {
                bool r, w;
                ready(*s, r, w);
                if (r)
                    p[i].revents |= POLLIN & p[i].events;
                if (w)
                    p[i].revents |= POLLOUT & p[i].events;
                if (s->connecting && s->done >= 0 && s->done <= now() && !s->good)
                    p[i].revents |= POLLERR | POLLHUP;
                t = std::min(t, next(*s));
            }
            k += p[i].revents != 0;
        }
        if (k || now() >= end)
            return k;
        if (std::min(t, end) == LLONG_MAX)
            return wait_to(now() + 1000000000), 0;
        wait_to(std::min(t, end));
    }
}
extern "C" int select(int n, fd_set *r, fd_set *w, fd_set *, struct timeval *tv)
{
    std::vector<struct pollfd> p;
    for (int i = 0; i < n; i++)
    {
        struct pollfd x = {i, 0, 0};
        if (r && FD_ISSET(i, r))
            x.events |= POLLIN;
        if (w && FD_ISSET(i, w))
            x.events |= POLLOUT;
        if (x.events)
            p.push_back(x);
    }
    poll(p.data(), p.size(), tv ? tv->tv_sec * 1000 + tv->tv_usec / 1000 : -1);
    int k = 0;
    for (size_t i = 0; i < p.size(); i++)
    {
        if (r && FD_ISSET(p[i].fd, r))
            p[i].revents & (POLLIN | POLLERR | POLLHUP) ? k++ : (FD_CLR(p[i].fd, r), 0);
        if (w && FD_ISSET(p[i].fd, w))
            p[i].revents & (POLLOUT | POLLERR) ? k++ : (FD_CLR(p[i].fd, w), 0);
    }
    return k;
}
// waits until s can be read or its time is over
static bool wait_read(Sock &s, int flags)
{
    bool r, w;
    int64_t end = s.rto ? now() + s.rto : LLONG_MAX;
    for (;;)
    {
        ready(s, r, w);
        if (r)
            return true;
        if (s.nonblock || (flags & MSG_DONTWAIT) || now() >= end)
            return false;
        int64_t t = std::min(next(s), end);
        if (t == LLONG_MAX)
            return wait_to(now() + 1000000000), false;
        wait_to(t);
    }
}
static ssize_t taked(Sock *s, void *b, size_t n, int flags)
{
    if (!wait_read(*s, flags))
        return errno = EAGAIN, -1;
    S d = g_dq[0].second;
    size_t whole = d.size();
    if (!(flags & MSG_PEEK))
        g_dq.erase(g_dq.begin());
    if (d.size() > n)
        d.resize(n);
    memcpy(b, d.data(), d.size());
    return flags & MSG_TRUNC ? whole : d.size();
}
extern "C" ssize_t recv(int fd, void *b, size_t n, int flags)
{
    Sock *s = sim(fd);
    if (!s)
        return errno = EBADF, -1;
    if (s->udp)
        return taked(s, b, n, flags);
    if ((flags & MSG_WAITALL) && !(flags & (MSG_PEEK | MSG_DONTWAIT)))
    {
        size_t got = 0;
        int64_t end = s->rto ? now() + s->rto : LLONG_MAX, rto = s->rto;
        ssize_t k = 0;
        while (got < n)
        {
            if (s->rto)
                s->rto = std::max<int64_t>(1, end - now());
            k = end <= now() && got ? recv(fd, (char *)b + got, n - got, (flags & ~MSG_WAITALL) | MSG_DONTWAIT) : recv(fd, (char *)b + got, n - got, flags & ~MSG_WAITALL);
            s->rto = rto;
            if (k <= 0)
                break;
            got += k;
        }
        return got ? (ssize_t)got : k;
    }
    if (!s->con)
        return errno = ENOTCONN, -1;
    if (n == 0)
        return 0;
    if (!wait_read(*s, flags))
        return errno = EAGAIN, -1;
    if (s->rst >= 0 && s->rst <= now())
    {
        if (s->told)
            return 0;
        s->told = true;
        return errno = ECONNRESET, -1;
    }
    int have = 0;
    for (size_t i = 0; i < s->in.size() && s->in[i].t <= now(); i++)
        have = s->in[i].n;
    have -= s->pos;
    if (have == 0)
        return 0;
    int k = (int)std::min(n, (size_t)have);
    if (R->chance(1, 5))
        k = R->range(1, k);
    S d = D(s->con, s->pos, k);
    memcpy(b, d.data(), k);
    if (!(flags & MSG_PEEK))
        s->pos += k;
    return k;
}
extern "C" ssize_t read(int fd, void *b, size_t n)
{
    return sim(fd) ? recv(fd, b, n, 0) : syscall(SYS_read, fd, b, n);
}
static ssize_t sendd(const S &to, const void *b, size_t n)
{
    if (g_senderr)
        return errno = n > 65507 ? EMSGSIZE : ENETUNREACH, -1;
    g_dgot += S(g_dgot.size() ? "," : "") + "{\"to\":\"" + to + "\",\"b\":" + A(S((const char *)b, n)) + "}";
    return n;
}
extern "C" ssize_t send(int fd, const void *b, size_t n, int flags)
{
    Sock *s = sim(fd);
    if (!s)
        return errno = EBADF, -1;
    if (s->udp)
        return s->addr.size() ? sendd(s->addr, b, n) : (errno = EDESTADDRREQ, -1);
    if (!s->con)
        return errno = ENOTCONN, -1;
    if (g_senderr || (s->rst >= 0 && s->rst <= now()))
    {
        if (!(flags & MSG_NOSIGNAL))
            raise(SIGPIPE);
        return errno = EPIPE, -1;
    }
    if (g_block)
    {
        int64_t d = g_block < 0 ? LLONG_MAX : g_block;
        g_block = g_block < 0 ? -1 : 0;
        if (s->nonblock || (s->sto && d >= s->sto))
        {
            if (!s->nonblock)
                wait_to(now() + s->sto);
            return errno = EAGAIN, -1;
        }
        wait_to(now() + (d == LLONG_MAX ? 1000000000 : d));
        if (d == LLONG_MAX)
            return errno = EAGAIN, -1;
    }
    int k = (int)std::min(n, (size_t)g_take);
    g_got.append((const char *)b, k);
    return k;
}
extern "C" ssize_t write(int fd, const void *b, size_t n)
{
    return sim(fd) ? send(fd, b, n, 0) : syscall(SYS_write, fd, b, n);
}
extern "C" int bind(int fd, const struct sockaddr *a, socklen_t) noexcept
{
    if (!sim(fd))
        return errno = EBADF, -1;
    if (g_bindfail)
        return errno = EADDRINUSE, -1;
    S n = name(a);
    g_bound = n.substr(0, n.find(':'));
    if (g_bound == "0.0.0.0")
        g_bound = "any";
    g_lport = atoi(n.c_str() + n.find(':') + 1);
    sim(fd)->con = ++g_cons;
    return 0;
}
extern "C" ssize_t sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *a, socklen_t)
{
    Sock *s = sim(fd);
    if (!s)
        return errno = EBADF, -1;
    if (!s->udp || !a)
        return send(fd, b, n, flags);
    return sendd(name(a), b, n);
}
static S gather(const struct msghdr *m)
{
    S s;
    for (size_t i = 0; i < m->msg_iovlen; i++)
        s.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
    return s;
}
extern "C" ssize_t sendmsg(int fd, const struct msghdr *m, int flags)
{
    S s = gather(m);
    return sendto(fd, s.data(), s.size(), flags, (const struct sockaddr *)m->msg_name, m->msg_namelen);
}
extern "C" ssize_t recvmsg(int fd, struct msghdr *m, int flags)
{
    size_t n = 0;
    for (size_t i = 0; i < m->msg_iovlen; i++)
        n += m->msg_iov[i].iov_len;
    std::vector<char> b(n + 1);
    ssize_t k = recv(fd, b.data(), n, flags);
    for (size_t i = 0, a = 0; k > 0 && i < m->msg_iovlen && a < (size_t)k; a += m->msg_iov[i++].iov_len)
        memcpy(m->msg_iov[i].iov_base, &b[a], std::min(m->msg_iov[i].iov_len, (size_t)k - a));
    m->msg_flags = 0;
    return k;
}
extern "C" ssize_t recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *, socklen_t *)
{
    Sock *s = sim(fd);
    if (!s)
        return errno = EBADF, -1;
    if (!s->udp)
        return recv(fd, b, n, flags);
    return taked(s, b, n, flags);
}
extern "C" int ioctl(int fd, unsigned long q, ...) noexcept
{
    va_list ap;
    va_start(ap, q);
    struct ifreq *f = va_arg(ap, struct ifreq *);
    va_end(ap);
    if (!sim(fd))
        return errno = EBADF, -1;
    if (q == SIOCGIFNAME)
    {
        if (f->ifr_ifindex < 1 || f->ifr_ifindex > (int)g_ifs.size())
            return errno = ENODEV, -1;
        snprintf(f->ifr_name, sizeof f->ifr_name, "if%d", f->ifr_ifindex);
        return 0;
    }
    if (q == SIOCGIFADDR)
    {
        int i = atoi(f->ifr_name + 2);
        if (g_ifs[i - 1].empty())
            return errno = EADDRNOTAVAIL, -1;
        struct sockaddr_in *s = (struct sockaddr_in *)&f->ifr_addr;
        s->sin_family = AF_INET;
        s->sin_addr.s_addr = inet_addr(g_ifs[i - 1].c_str());
        return 0;
    }
    return 0;
}
// ------------------------------------------------------------------
static int64_t g_t0;
static void begin()
{
    g_got = g_dgot = "";
    g_t0 = now();
}
static S tail()
{
    int con = 0, pos = 0;
    for (std::map<int, Sock>::iterator it = g_s.begin(); it != g_s.end(); ++it)
        con = it->second.con ? it->second.con : 999, pos = it->second.pos;
    static const char *k[] = {"ok", "ok", "no", "never", "no", "no"};
    char b[200];
    snprintf(b, sizeof b, "\"t0\":%d,\"t1\":%d,\"con\":%d,\"open\":%d,\"cpos\":%d,\"plan\":{\"k\":\"%s\",\"d\":%d,\"bad\":%s}}", (int)g_t0, (int)now(), con, (int)g_s.size(), pos, k[g_plan.k], g_plan.k == 0 || g_plan.k > 3 ? 0 : g_plan.d, g_plan.k == 5 || g_bindfail ? "true" : "false");
    return b;
}
static S bytes(Rng &r, int n)
{
    S s;
    for (int i = 0; i < n; i++)
        s += (char)r.below(256);
    return s;
}
static void plan(Rng &r, int to)
{
    int k = r.below(20);
    g_plan.k = k < 5 ? 0 : k < 12 ? 1 : k < 14 ? 2 : k < 16 ? 3 : k < 18 ? 4 : 5;
    g_plan.d = r.chance(1, 4) ? to + r.range(-2, 2) : r.chance(1, 4) ? r.below(2 * to) : r.below(to / 2 + 1);
    if (g_plan.d < 1)
        g_plan.d = 1;
}
static int tmo(Rng &r) { return r.chance(1, 3) ? r.range(1, 50) : r.chance(1, 2) ? r.range(1, 8) * 500 : r.range(900, 5000); }
static S addr(Rng &r, S &ip, int &port)
{
    ip = r.chance(1, 2) ? "10.1.2.3" : r.chance(1, 2) ? "127.0.0.1" : "192.168.7.250";
    port = r.range(1, 65535);
    return ip + ":" + std::to_string(port);
}
static void tcp(Rng &r)
{
    lce::CTcpConnector *c = new lce::CTcpConnector;
    bool first = true;
    for (int i = r.range(6, 30); i > 0; i--)
    {
        int o = first ? (r.chance(1, 10) ? 5 + r.below(9) : 0) : r.below(20), to = tmo(r);
        advance_us(r.chance(1, 2) ? 0 : r.below(2000) * 1000);
        if (o == 0)
        {
            S ip;
            int port;
            S a = addr(r, ip, port);
            plan(r, to);
            begin();
            bool ok = c->connect(ip, port, to);
            first = false;
            emit("{\"e\":\"Connect\",\"addr\":\"%s\",\"to\":%d,\"ok\":%s,%s", a.c_str(), to, ok ? "true" : "false", tail().c_str());
        }
        else if (o < 5)
        {
            S d = bytes(r, r.chance(1, 10) ? 0 : r.range(1, 60));
            plan(r, 1000);
            g_senderr = r.chance(1, 10);
            g_take = r.chance(1, 4) ? r.range(1, 30) : 1000000;
            g_block = r.chance(1, 8) ? -1 : r.chance(1, 4) ? std::max(1, r.chance(1, 2) ? (int)r.below(2 * to) : to + r.range(-1, 1)) : 0;
            int blk = g_block;
            begin();
            int n = c->write(d.data(), d.size(), to);
            emit("{\"e\":\"Write\",\"to\":%d,\"data\":%s,\"got\":%s,\"serr\":%s,\"blk\":%d,\"r\":%d,%s", to, A(d).c_str(), A(g_got).c_str(), g_senderr ? "true" : "false", blk, n, tail().c_str());
        }
        else if (o < 14)
        {
            S v;
            int n = r.range(1, 60), q, k = r.below(3);
            begin();
            if (k == 2)
            {
                n = 65535;
                v = "old";
                q = c->read(v, to);
                if (q >= 0 && (int)v.size() != q)
                    v = "size";
            }
            else
            {
                v = S(n, 0);
                q = k == 1 ? c->readn((char *)v.data(), n, to) : c->read((char *)v.data(), n, to);
                v.resize(q > 0 ? q : 0);
            }
            if (q <= 0 && k == 2 && !v.empty() && v != "old")
                v = "junk";
            else if (q <= 0)
                v = "";
            emit("{\"e\":\"%s\",\"n\":%d,\"to\":%d,\"r\":%d,\"v\":%s,%s", k == 1 ? "Readn" : "Read", n, to, q, A(v).c_str(), tail().c_str());
        }
        else if (o == 14)
        {
            begin();
            c->close();
            emit("{\"e\":\"Close\",%s", tail().c_str());
        }
    }
    delete c;
}
static void udp(Rng &r)
{
    lce::CUdpConnector *c = new lce::CUdpConnector;
    int64_t last = 0;
    for (int i = r.range(6, 30); i > 0; i--)
    {
        int o = i > 28 ? 0 : r.below(20), to = tmo(r);
        advance_us(r.chance(1, 2) ? 0 : r.below(2000) * 1000);
        if (o == 0)
        {
            S ip, want = "any";
            int port, wport = r.chance(1, 2) ? 0 : r.range(1, 65535);
            S a = addr(r, ip, port), local;
            g_ifs.clear();
            if (r.chance(1, 2))
                local = want = "127.0.0.1";
            else
                for (int k = r.below(4); k > 0; k--)
                {
                    static const char *n[] = {"127.0.0.1", "8.8.8.8", "", "10.0.0.7", "192.168.1.9", "172.16.0.3"};
                    g_ifs.push_back(n[r.below(6)]);
                    S &x = g_ifs.back();
                    if (want == "any" && (x.compare(0, 3, "10.") == 0 || x.compare(0, 4, "192.") == 0 || x.compare(0, 4, "172.") == 0))
                        want = x;
                }
            g_plan.k = r.chance(1, 12) ? 5 : 0;
            g_plan.d = 0;
            g_bindfail = r.chance(1, 10);
            if (g_plan.k == 5 && local.empty())
                g_plan.k = 0;
            begin();
            g_dq.clear();
            bool ok = c->connect(ip, port, local, wport);
            emit("{\"e\":\"UConnect\",\"addr\":\"%s\",\"ok\":%s,\"want\":\"%s\",\"bound\":\"%s\",\"wport\":%d,\"lport\":%d,%s", a.c_str(), ok ? "true" : "false", want.c_str(), g_bound.c_str(), wport, g_lport, tail().c_str());
            g_bindfail = false;
        }
        else if (o < 8)
        {
            S d = bytes(r, r.chance(1, 10) ? 0 : r.range(1, 60));
            g_senderr = r.chance(1, 8);
            begin();
            int n = c->write(d.data(), d.size());
            emit("{\"e\":\"USend\",\"data\":%s,\"got\":[%s],\"err\":%s,\"r\":%d,%s", A(d).c_str(), g_dgot.c_str(), g_senderr ? "true" : "false", n, tail().c_str());
        }
        else if (o < 12 && g_s.size())
        {
            last = std::max(last, now()) + (r.chance(1, 2) ? 0 : r.below(4000));
            S d = bytes(r, r.chance(1, 12) ? 0 : r.range(1, 60));
            g_dq.push_back(std::make_pair(last, d));
            emit("{\"e\":\"UArrive\",\"t\":%d,\"b\":%s}", (int)last, A(d).c_str());
        }
        else if (o < 18)
        {
            S v = "old";
            int n = 65535, q;
            begin();
            if (r.chance(1, 2))
            {
                q = c->read(v, to);
                if (q >= 0 && (int)v.size() != q)
                    v = "size";
            }
            else
            {
                n = r.range(1, 70);
                v = S(n, 0);
                q = c->read((char *)v.data(), n, to);
                v.resize(q > 0 ? q : 0);
            }
            emit("{\"e\":\"URecv\",\"n\":%d,\"to\":%d,\"r\":%d,\"v\":%s,%s", n, to, q, A(v).c_str(), tail().c_str());
        }
        else if (o == 18)
        {
            begin();
            c->close();
            g_dq.clear();
            emit("{\"e\":\"Close\",%s", tail().c_str());
        }
    }
    delete c;
}
static void hist(int, Rng &r)
{
    R = new Rng(r.next());
    g_base = r.chance(1, 6) ? r.range(1000, 5000) : r.range(500, 900);
    g_clock_on = true;
    set_now_us(T0_US);
    emit("{\"e\":\"Reset\"}");
    g_mode == "udp" ? udp(r) : tcp(r);
    emit("{\"e\":\"End\",\"open\":%d}", (int)g_s.size());
}
int main(int argc, char **argv) { return run_histories(argc, argv, hist); }
