// CPackage: two packages, written, read, moved about in, copied. After a failed read the package gets new data.
#include "vrt.h"
#include "dutil.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <arpa/inet.h>
#include "CPackage.h"
using namespace vrt;
typedef std::string S;
#pragma pack(1)
struct H1
{
    unsigned char a;
};
struct H4
{
    int a;
};
struct H13
{
    char a;
    int b;
    unsigned long long c;
};
#pragma pack()
static S A(const S &s) { return arr(s.data(), s.size()); }
static S be(unsigned long long v, int k)
{
    S s;
    for (int i = k - 1; i >= 0; i--)
        s += (char)(v >> (8 * i));
    return s;
}
static S rnd(Rng &r, int n)
{
    S s;
    for (int i = 0; i < n; i++)
        s += (char)(r.chance(1, 6) ? 0 : r.chance(1, 2) ? 1 + r.below(4) : r.below(256));
    return s;
}
static int len(Rng &r) { return r.chance(1, 10) ? r.range(60, 400) : r.chance(1, 6) ? 0 : r.range(1, 30); }
template <class T> static S pos(T &p, Rng &r, unsigned long long v, int ty, int at)
{
#define W(n, t)                         \
    case n:                             \
        p.writePos((t)v, at);           \
        return be((t)v, sizeof(t));
    switch (ty)
    {
        W(0, unsigned char) W(1, char) W(2, unsigned short) W(3, short) W(4, unsigned int) W(5, int) W(6, unsigned long) W(7, long) W(8, unsigned long long) W(9, long long)
    }
#undef W
    return "";
}
template <class T> static S wr(T &p, Rng &r, unsigned long long v, int ty, int &at)
{
    bool op = r.chance(1, 2);
#define W(n, t)                         \
    case n:                             \
        if (op)                         \
            p << (t)v;                  \
        else                            \
            at = p.write((t)v);         \
        return be((t)v, sizeof(t));
    switch (ty)
    {
        W(0, unsigned char) W(1, char) W(2, unsigned short) W(3, short) W(4, unsigned int) W(5, int) W(6, unsigned long) W(7, long) W(8, unsigned long long) W(9, long long)
    }
#undef W
    return "";
}
template <class T> static S rd(T &p, int ty)
{
#define W(n, t)                      \
    case n:                          \
    {                                \
        t x;                         \
        p >> x;                      \
        return be(x, sizeof(t));     \
    }
    switch (ty)
    {
        W(0, unsigned char) W(1, char) W(2, unsigned short) W(3, short) W(4, unsigned int) W(5, int) W(6, unsigned long) W(7, long) W(8, unsigned long long) W(9, long long)
    }
#undef W
    return "";
}
static const int SZ[] = {1, 1, 2, 2, 4, 4, 8, 8, 8, 8};
template <class H> static void run(Rng &r)
{
    typedef lce::CPackage<H> P;
    P *p[3] = {NULL, new P, new P};
    emit("{\"e\":\"Reset\",\"h\":%d}", (int)sizeof(H));
    for (int s = r.range(10, 60); s > 0; s--)
    {
        int h = r.range(1, 2), o = r.below(30);
        P &q = *p[h];
        bool bad = false;
        if (o < 8)
        {
            S b;
            int at = -1;
            unsigned long long v = r.next() >> r.below(64);
            if (r.chance(1, 6))
                v = ~v;
            int k = r.below(16);
            if (k < 10)
                b = wr(q, r, v, k, at);
            else if (k == 10)
                b = rnd(r, len(r)), q.write(b.data(), b.size());
            else if (k == 11)
                b = rnd(r, len(r)), q.write((const unsigned char *)b.data(), b.size());
            else if (k == 12)
                b = rnd(r, len(r)), q << b;
            else if (k == 13)
            {
                b = rnd(r, len(r));
                b = b.c_str();
                q << b.c_str();
                if (r.chance(1, 2))
                    q << (char)0, b += (char)0;
            }
            else
            {
                S t = rnd(r, len(r));
                int w = r.chance(1, 3) ? 1 : r.chance(1, 2) ? 2 : 4;
                if (w == 1)
                    t.resize(t.size() % 256);
                b = be(r.chance(1, 10) ? t.size() + r.range(1, 20) : r.chance(1, 20) ? r.next() : t.size(), w);
                b += t;
                q << b;
            }
            emit("{\"e\":\"Write\",\"h\":%d,\"b\":%s,\"at\":%d}", h, A(b).c_str(), at);
        }
        else if (o == 8)
        {
            int at = r.chance(1, 4) ? q.size() - r.below(3) : r.below(q.size() + 1);
            at = at < 0 ? 0 : at;
            S b = pos(q, r, r.next(), r.below(10), at);
            emit("{\"e\":\"Over\",\"h\":%d,\"i\":%d,\"b\":%s}", h, at, A(b).c_str());
        }
        else if (o < 18)
        {
            S v;
            bool ok = true;
            int k = r.below(14), n = k < 10 ? SZ[k] : r.chance(1, 12) ? -r.range(1, 2000) : r.chance(1, 8) ? (int)r.next() & 0x7fffffff : r.below(25);
            try
            {
                if (k < 10)
                    v = rd(q, k);
                else if (k < 12)
                    q.read(v, n);
                else
                {
                    S buf(n > 0 && n < 100000 ? n : 1, 0);
                    if (n > 99999)
                        n = 99999, buf.resize(n);
                    q.read((char *)buf.data(), n);
                    v = buf.substr(0, n);
                }
            }
            catch (std::runtime_error &)
            {
                ok = false, bad = true;
            }
            emit("{\"e\":\"Read\",\"h\":%d,\"n\":%d,\"ok\":%s,\"v\":%s}", h, n, ok ? "true" : "false", A(v).c_str());
        }
        else if (o < 22)
        {
            S v;
            bool ok = true;
            int k = r.below(4);
            try
            {
                if (k == 0)
                    q.readString(v);
                else if (k == 1)
                    q.readString1(v);
                else if (k == 2)
                    q.readString2(v);
                else
                    q.readString4(v);
            }
            catch (std::runtime_error &)
            {
                ok = false, bad = true;
            }
            emit("{\"e\":\"Str\",\"h\":%d,\"n\":%d,\"ok\":%s,\"v\":%s}", h, k == 3 ? 4 : k, ok ? "true" : "false", A(v).c_str());
        }
        else if (o == 22)
        {
            int n = r.below(20);
            bool v = q.isEnd(n);
            emit("{\"e\":\"IsEnd\",\"h\":%d,\"n\":%d,\"v\":%s}", h, n, v ? "true" : "false");
        }
        else if (o < 26)
        {
            int d = r.below(3), off = d == 0 ? r.range(-1, 40) : d == 1 ? r.range(-20, 20) : r.range(-40, 1);
            if (r.chance(1, 4))
                off = d == 0 ? q.getPkgBodyLen() + r.range(-1, 1) : d == 2 ? -q.getPkgBodyLen() + r.range(-2, 1) : off;
            bool ok = q.seek(off, d == 0 ? P::S_BEG : d == 1 ? P::S_CUR : P::S_END);
            emit("{\"e\":\"Seek\",\"h\":%d,\"off\":%d,\"dir\":%d,\"ok\":%s}", h, off, d, ok ? "true" : "false");
        }
        else if (o == 26)
        {
            int k = r.below(6);
            if (k == 0)
            {
                q.clear();
                emit("{\"e\":\"Clear\",\"h\":%d}", h);
            }
            else if (k == 1)
            {
                q.clearBody();
                emit("{\"e\":\"ClearBody\",\"h\":%d}", h);
            }
            else if (k < 4)
            {
                S b = rnd(r, len(r));
                if (k == 2)
                    q.setPkgBody(b.data(), b.size());
                else
                    q.setPkgBody((const unsigned char *)b.data(), b.size());
                emit("{\"e\":\"Body\",\"h\":%d,\"b\":%s}", h, A(b).c_str());
            }
            else
            {
                S b = rnd(r, sizeof(H));
                H x;
                memcpy(&x, b.data(), sizeof x);
                if (k == 4)
                    q.setPkgHead(x);
                else
                    q.head() = x;
                emit("{\"e\":\"Head\",\"h\":%d,\"b\":%s}", h, A(b).c_str());
            }
        }
        else if (o == 27)
        {
            if (r.chance(1, 2))
                q = *p[3 - h];
            else
            {
                delete p[h];
                p[h] = new P(*p[3 - h]);
            }
            emit("{\"e\":\"Copy\",\"h\":%d}", h);
        }
        if (o == 28 || bad)
        {
            S b = rnd(r, r.chance(1, 12) ? r.below(sizeof(H)) : sizeof(H) + len(r));
            bool ok = true;
            int k = r.below(4);
            for (;;)
            {
                try
                {
                    if (k == 0)
                        p[h]->setPkgData(b.data(), b.size());
                    else if (k == 1)
                        p[h]->setPkgData((const unsigned char *)b.data(), b.size());
                    else if (k == 2)
                        p[h]->setPkgData(b);
                    else
                    {
                        P *n = new P(b.data(), b.size());
                        delete p[h];
                        p[h] = n;
                    }
                }
                catch (std::runtime_error &)
                {
                    ok = false;
                }
                emit("{\"e\":\"Data\",\"h\":%d,\"b\":%s,\"ok\":%s}", h, A(b).c_str(), ok ? "true" : "false");
                if (ok || !bad)
                    break;
                b += S(sizeof(H), 'x');
                ok = true;
            }
        }
        if (o == 29)
        {
            P &g = *p[h];
            S all = r.chance(1, 2) ? S(g.data(), g.size()) : S(g.getPkg(), g.getPkgLen());
            emit("{\"e\":\"Dump\",\"h\":%d,\"b\":%s,\"len\":%d,\"blen\":%d,\"body\":%s,\"head\":%s}", h, A(all).c_str(), g.size(), g.getPkgBodyLen(), A(S(g.getPkgBody(), g.getPkgBodyLen())).c_str(), A(S((char *)g.getPkgHead(), sizeof(H))).c_str());
        }
    }
    delete p[1];
    delete p[2];
    emit("{\"e\":\"End\"}");
}
static void hist(int, Rng &r)
{
    switch (r.below(3))
    {
    case 0:
        return run<H1>(r);
    case 1:
        return run<H4>(r);
    default:
        return run<H13>(r);
    }
}
int main(int argc, char **argv) { return run_histories(argc, argv, hist); }
