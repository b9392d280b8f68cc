// helpers of the demonstrations
#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/socket.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>
#include <map>
#include <unordered_map>
#include <signal.h>
static void bad(const char *s)
{
    fprintf(stderr, "BROKEN: %s\n", s);
    _exit(1);
}
static void good()
{
    printf("ok\n");
    fflush(stdout);
    _exit(0);
}
static inline int freeport(int type = SOCK_STREAM)
{
    int s = socket(AF_INET, type, 0);
    sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = inet_addr("127.0.0.1");
    socklen_t l = sizeof a;
    bind(s, (sockaddr *)&a, l);
    getsockname(s, (sockaddr *)&a, &l);
    close(s);
    return ntohs(a.sin_port);
}
static inline int dial(int port, int rcv = 0)
{
    int s = socket(AF_INET, SOCK_STREAM, 0), one = 1;
    if (rcv)
        setsockopt(s, SOL_SOCKET, SO_RCVBUF, &rcv, sizeof rcv);
    setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    a.sin_addr.s_addr = inet_addr("127.0.0.1");
    if (connect(s, (sockaddr *)&a, sizeof a) != 0)
        bad("cannot connect");
    return s;
}
static inline void put(int s, const std::string &d)
{
    size_t o = 0;
    while (o < d.size())
    {
        ssize_t n = write(s, d.data() + o, d.size() - o);
        if (n <= 0)
            return;
        o += n;
    }
}
// reads n bytes, or what comes until ms pass without any; eof says whether the stream ended
static inline std::string take(int s, size_t n, int ms, bool *eof = 0)
{
    std::string r;
    if (eof)
        *eof = false;
    while (r.size() < n)
    {
        pollfd p = {s, POLLIN, 0};
        if (poll(&p, 1, ms) <= 0)
            break;
        char b[4096];
        ssize_t k = read(s, b, n - r.size() < sizeof b ? n - r.size() : sizeof b);
        if (k <= 0)
        {
            if (eof)
                *eof = true;
            break;
        }
        r.append(b, k);
    }
    return r;
}
static inline void ms(int n) { usleep(n * 1000); }
