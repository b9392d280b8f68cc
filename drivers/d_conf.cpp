// CConfig: files of all shapes are loaded and asked.
#include "vrt.h"
#include "dutil.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <memory.h>
#include "CConfig.h"
using namespace vrt;
typedef std::string S;
static S A(const S &s) { return arr(s.data(), s.size()); }
static const char *JB(bool b) { return b ? "true" : "false"; }
static S num(Rng &r, int kind) // fits: 0 uchar, 1 ushort, 2 int, 3 uint, 4 long, 5 ulong
{
    unsigned long v = r.next() >> r.below(64);
    static const unsigned long top[] = {255, 65535, 2147483647, 4294967295ul, 9223372036854775807ul, 18446744073709551615ul};
    v = r.chance(1, 5) ? top[kind] - r.below(2) : top[kind] == 18446744073709551615ul ? v : v % (top[kind] + 1);
    bool neg = (kind == 2 || kind == 4) && r.chance(1, 3);
    S s = std::to_string(v);
    if (r.chance(1, 8))
        s = S(r.range(1, 3), '0') + s;
    return neg ? "-" + s : r.chance(1, 10) ? "+" + s : s;
}
static S ip(Rng &r)
{
    S s;
    for (int i = 0; i < 4; i++)
        s += (i ? "." : "") + std::to_string(r.chance(1, 2) ? r.below(10) : r.below(256));
    return s;
}
static S entry(Rng &r);
static S addr(Rng &r) { return ip(r) + ":" + std::to_string(r.chance(1, 3) ? r.range(1, 9) : r.range(1, 65535)); }
// an entry of a list that may have nothing before or after the colon, or no colon
static S entry(Rng &r)
{
    static const char *w[] = {"", "nothing", ":", ":80", "host:", "1.2.3.4", "host:80", "::", " 1.2.3.4:5", "1.2.3.4:5 "};
    return w[r.below(10)];
}
static S word(Rng &r)
{
    static const char *w[] = {"a", "b", "port", "name", "x y", "a.b", "logs", "key#1", "k;2", "p]q", "k[0]", "\xe4\xbd\xa0"};
    return w[r.below(12)];
}
static S sect(Rng &r)
{
    static const char *w[] = {"app", "db", "a b", "x=1", "s;", "S#"};
    return w[r.below(6)];
}
static S bl(Rng &r)
{
    static const char *w[] = {"", "", "", " ", "\t", "  ", " \t "};
    return w[r.below(7)];
}
struct Key
{
    S app, name;
    int num; // kind of its number or -1
    bool addr;
};
static std::vector<Key> g_keys;
static S value(Rng &r, int &kind)
{
    kind = -1;
    switch (r.below(10))
    {
    case 0:
        return "";
    case 1:
        return addr(r);
    case 2:
    {
        S s = addr(r);
        for (int i = r.below(4); i > 0; i--)
            s += "|" + (r.chance(1, 3) ? entry(r) : addr(r));
        return s;
    }
    case 3:
    case 4:
    case 5:
        kind = r.below(6);
        return num(r, kind);
    case 6:
        return "a=b # no comment; at all";
    case 7:
        return r.chance(1, 3) ? ip(r) : r.chance(1, 2) ? "host:80" : "|:|" + addr(r);
    default:
    {
        S s;
        for (int i = r.chance(1, 10) ? r.range(100, 600) : r.below(12); i > 0; i--)
        {
            char c = r.below(255) + 1;
            s += c == '\n' ? 'n' : c;
        }
        return s;
    }
    }
}
static void forget(const S &app, const S &name)
{
    for (size_t i = 0; i < g_keys.size(); i++)
        if (g_keys[i].app == app && g_keys[i].name == name)
            g_keys.erase(g_keys.begin() + i--);
}
static S file(Rng &r)
{
    S t, app = "";
    int n = r.chance(1, 15) ? 0 : r.range(1, 14);
    bool crlf = r.chance(1, 3);
    for (int i = 0; i < n; i++)
    {
        S l;
        int o = r.below(20);
        if (o < 4)
        {
            app = sect(r);
            l = bl(r) + "[" + bl(r) + app + bl(r) + "]" + (r.chance(1, 6) ? " # is a comment" : r.chance(1, 8) ? " v = 1" : bl(r));
        }
        else if (o == 4)
            l = bl(r) + (r.chance(1, 2) ? "#" : ";") + bl(r) + word(r) + "=" + "9";
        else if (o == 5)
            l = bl(r);
        else if (o == 6)
            l = bl(r) + (r.chance(1, 2) ? word(r) : r.chance(1, 2) ? "= 5" : "[x");
        else
        {
            Key k;
            k.app = app;
            k.name = word(r);
            S v = value(r, k.num);
            k.addr = v.find('|') != S::npos || v.find(':') != S::npos;
            if (r.chance(1, 60))
                k.name = S(r.range(50, 200), 'n');
            l = bl(r) + k.name + bl(r) + "=" + bl(r) + v + bl(r);
            forget(k.app, k.name);
            g_keys.push_back(k);
        }
        t += l;
        if (i + 1 < n || r.chance(2, 3))
            t += crlf ? "\r\n" : "\n";
    }
    return t;
}
template <class T> static S str(T v) { return std::to_string(v); }
template <class T> static void ask(lce::CConfig &c, const Key &k, const char *ty, T d, bool n)
{
    T v = 77, res = c.getValue(k.app, k.name, v, d);
    emit("{\"e\":\"Num\",\"ty\":\"%s\",\"app\":%s,\"name\":%s,\"num\":%s,\"d\":%s,\"v\":%s,\"r\":%s}", ty, A(k.app).c_str(), A(k.name).c_str(), JB(n), A(str(d)).c_str(), A(str(v)).c_str(), A(str(res)).c_str());
}
static void hist(int, Rng &r)
{
    g_keys.clear();
    emit("{\"e\":\"Reset\"}");
    lce::CConfig *c = new lce::CConfig;
    char b[40];
    snprintf(b, sizeof b, "/c%d.ini", (int)getpid());
    S path = g_work + b;
    for (int f = r.range(1, 2); f > 0; f--)
    {
        bool there = !r.chance(1, 10);
        S t = there ? file(r) : "";
        if (there)
        {
            std::ofstream o(path.c_str(), std::ios::binary);
            o << t;
        }
        bool ok = c->loadConfig(path);
        emit("{\"e\":\"Load\",\"there\":%s,\"ok\":%s,\"text\":%s}", JB(there), JB(ok), A(t).c_str());
        unlink(path.c_str());
        for (int i = r.range(4, 16); i > 0; i--)
        {
            Key k;
            if (g_keys.size() && r.chance(4, 5))
                k = g_keys[r.below(g_keys.size())];
            else
                k.app = r.chance(1, 2) ? sect(r) : "", k.name = r.chance(1, 6) ? "[" + sect(r) + "]" : word(r), k.num = -1, k.addr = false;
            for (size_t j = 0; j < g_keys.size(); j++)
                if (g_keys[j].app == k.app && g_keys[j].name == k.name)
                    k.num = g_keys[j].num;
            int o = r.below(13), d = r.below(200);
            if (k.addr && r.chance(2, 3))
                o = r.range(11, 12);
            int n = k.num;
            if (o < 4)
            {
                S v = "old", res = c->getValue(k.app, k.name, v, S("dflt"));
                emit("{\"e\":\"Str\",\"app\":%s,\"name\":%s,\"d\":%s,\"v\":%s,\"r\":%s}", A(k.app).c_str(), A(k.name).c_str(), A("dflt").c_str(), A(v).c_str(), A(res).c_str());
            }
            else if (o == 4)
                ask<int>(*c, k, "int", d, n >= 0 && n <= 2);
            else if (o == 5)
                ask<unsigned int>(*c, k, "uint", d, n == 0 || n == 1 || n == 3);
            else if (o == 6)
                ask<long>(*c, k, "long", d, n >= 0 && n <= 4);
            else if (o == 7)
                ask<unsigned long>(*c, k, "ulong", d, n == 0 || n == 1 || n == 3 || n == 5);
            else if (o == 8)
                ask<unsigned short>(*c, k, "ushort", d, n == 0 || n == 1);
            else if (o == 9)
                ask<unsigned char>(*c, k, "uchar", d, n == 0);
            else if (o == 10)
            {
                bool dd = r.chance(1, 2), v = !dd, res = c->getValue(k.app, k.name, v, dd);
                emit("{\"e\":\"Bool\",\"app\":%s,\"name\":%s,\"num\":%s,\"d\":%s,\"v\":%s,\"r\":%s}", A(k.app).c_str(), A(k.name).c_str(), JB(n >= 0 && n <= 4), JB(dd), JB(v), JB(res));
            }
            else if (o == 11)
            {
                S a = "old";
                unsigned short p = 5;
                bool ok = c->getIPAndPort(k.app, k.name, a, p, "127.0.0.1", 99);
                emit("{\"e\":\"Addr\",\"app\":%s,\"name\":%s,\"ok\":%s,\"ip\":%s,\"port\":%d,\"dip\":%s,\"dport\":99}", A(k.app).c_str(), A(k.name).c_str(), JB(ok), A(a).c_str(), p, A("127.0.0.1").c_str());
            }
            else
            {
                std::vector<std::pair<S, unsigned short>> v(2);
                bool ok = c->getIPAndPortList(k.app, k.name, v, "127.0.0.1", 99);
                S l = "[";
                for (size_t j = 0; j < v.size(); j++)
                    l += S(j ? "," : "") + "{\"ip\":" + A(v[j].first) + ",\"port\":" + std::to_string(v[j].second) + "}";
                emit("{\"e\":\"List\",\"app\":%s,\"name\":%s,\"ok\":%s,\"list\":%s],\"dip\":%s,\"dport\":99}", A(k.app).c_str(), A(k.name).c_str(), JB(ok), l.c_str(), A("127.0.0.1").c_str());
            }
        }
    }
    delete c;
    emit("{\"e\":\"End\"}");
}
int main(int argc, char **argv) { return run_histories(argc, argv, hist); }
