// vk: a virtual kernel for the network code: sockets, epoll, poll/select, pipes and eventfds live in this process;
// the driver plays the network (the "world") and decides how much moves, what fails and in which order events come.
// Descriptor numbers are real (each object reserves one with /dev/null), so they are reused as the kernel would.
#ifndef VK_H
#define VK_H
#include "vrt.h"
#include <map>
#include <deque>
#include <netinet/in.h>
namespace vk
{
enum Kind { EPOLL, PIPE_R, PIPE_W, EVENTFD, SOCK, LISTEN, TCP, UDP };
enum TState { NEW, CONNECTING, READY, FAILED };
struct Dgram
{
    uint32_t ip; // host order
    uint16_t port;
    std::string data;
    int tag;
};
struct Pipe
{
    std::string buf;
    bool rd, wr;
};
struct Obj
{
    int kind, fd, oid;
    bool nonblock;
    int refs;
    // epoll
    std::map<int, std::pair<uint32_t, uint64_t> > watch; // oid -> events, data
    // pipe / eventfd
    Pipe *pipe;
    uint64_t cnt;
    bool esem;
    // sockets
    int type;
    uint16_t port; // bound port
    int64_t rto, sto; // SO_RCVTIMEO, SO_SNDTIMEO in us (0: none)
    std::deque<int> backlog; // cids
    int backmax;
    // tcp
    int cid;
    bool incoming;
    TState st;
    int err;
    std::string in;
    uint64_t nin;
    bool fin, rst, shutw;
    size_t space;
    std::string out; // what the peer has received and the world has not taken
    uint64_t nout;
    uint32_t pip;
    uint16_t pport;
    bool fdclosed;
    // udp
    std::deque<Dgram> dg, sent;
};
struct Opts
{
    uint32_t short_recv, short_send, eagain_recv, eagain_send, eintr, accept_err, epoll_eintr; // 1/den, 0: never
    size_t pipe_cap;
    int connect_now;   // percent of the connects that succeed at once
    int connect_err;   // percent that fail at once
    bool blocking_ok;  // blocking sockets are allowed
    Opts() : short_recv(0), short_send(0), eagain_recv(0), eagain_send(0), eintr(0), accept_err(0), epoll_eintr(0),
             pipe_cap(65536), connect_now(0), connect_err(0), blocking_ok(true) {}
};
struct Hooks
{
    virtual void accepted(Obj *) {}
    virtual void sock(Obj *) {}
    virtual void connecting(Obj *, int result) {} // result: 0 at once, EINPROGRESS, or the error
    virtual void recvd(Obj *, const char *p, int n) {}
    virtual void sent(Obj *, const char *p, int n) {}
    virtual void closed(Obj *) {}
    virtual void badclose(int fd) {}
    virtual void udp_recvd(Obj *, const Dgram &, int got) {}
    virtual void udp_sent(Obj *, const Dgram &) {}
    virtual void rfault(Obj *, int err) {} // a recv that failed with err
    virtual void accept_fault(Obj *, int err) {}
    virtual ~Hooks() {}
};
void start(uint64_t seed, const Opts &o, Hooks *h);
Opts &opts();
extern bool on;
// ---- the world
Obj *listener(uint16_t port);
Obj *udp(uint16_t port);
int w_connect(uint16_t port, uint32_t ip, uint16_t pport, size_t space); // -> cid or -1
Obj *conn(int cid);
int ncids();
void w_send(int cid, const std::string &d);
void w_fin(int cid);
void w_rst(int cid, int err = 0);
void w_space(int cid, size_t n);
std::string w_take(int cid);
std::vector<int> w_pending();                        // connects in progress (cids)
void w_establish(int cid, int err, size_t space);
int w_udp(uint16_t port, const Dgram &d);
int nobj();
}
#endif
