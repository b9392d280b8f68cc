// CAnyValue: registers holding values; modes "ops" (building, looking, aliasing), "bin" (binary), "json" (text),
// "deep" (nesting). Everything the code is given lives in buffers of exactly its size.
#include "vrt.h"
#include "dutil.h"
#include <string.h>
#include "CAnyPackage.h"
using namespace vrt;
using lce::CAnyValue;
typedef std::string S;
static Rng *R;
static CAnyValue *reg[3];

// ---------------------------------------------------------------- JSON for the trace
static S num(long long n) { char b[32]; snprintf(b, sizeof b, "%lld", n); return b; }
static S be(uint64_t x, int n)
{
    S r = "[";
    for (int i = n - 1; i >= 0; i--)
        r += num((x >> (8 * i)) & 255) + (i ? "," : "]");
    return r;
}
static S runs(const S &s)
{
    S r = "[";
    for (size_t i = 0; i < s.size();)
    {
        size_t j = i;
        while (j < s.size() && s[j] == s[i])
            j++;
        r += (r.size() > 1 ? ",[" : "[") + num((unsigned char)s[i]) + "," + num(j - i) + "]";
        i = j;
    }
    return r + "]";
}
static S bytes(const S &s)
{
    S r = "[";
    for (size_t i = 0; i < s.size(); i++)
        r += (i ? "," : "") + num((unsigned char)s[i]);
    return r + "]";
}
static const char *tf(bool b) { return b ? "true" : "false"; }
static S dbl(double d) { uint64_t x; memcpy(&x, &d, 8); return be(x, 8); }
static S dump(const CAnyValue &cv)
{
    CAnyValue &v = const_cast<CAnyValue &>(cv);   // the is...() are not const
    if (v.isNull())
        return "{\"t\":\"null\"}";
    if (v.isBool())
        return S("{\"t\":\"bool\",\"b\":") + tf(v.asBool()) + "}";
    if (v.isUInt() || v.isInt())
    {
        uint64_t x = (unsigned long long)v;
        return "{\"t\":\"int\",\"d\":" + be(x, 8) + ",\"g\":" + tf(v.isInt() && (int64_t)x < 0) + "}";
    }
    if (v.isFloat())
        return "{\"t\":\"flt\",\"f\":" + dbl((double)v) + "}";
    if (v.isString())
        return "{\"t\":\"str\",\"s\":" + runs(v.asString()) + "}";
    S r;
    if (v.isArray())
    {
        r = "{\"t\":\"vec\",\"e\":[";
        for (int i = 0; i < (int)v.size(); i++)
            r += (i ? "," : "") + dump(cv[i]);
        return r + "]}";
    }
    if (v.isObject())
    {
        r = "{\"t\":\"map\",\"m\":[";
        std::vector<S> k = v.keys();
        for (size_t i = 0; i < k.size(); i++)
            r += S(i ? "," : "") + "{\"k\":" + runs(k[i]) + ",\"v\":" + dump(cv[k[i]]) + "}";
        return r + "]}";
    }
    return "{\"t\":\"none\"}";
}
static void out(const S &s) { emit("%s", s.c_str()); }
static int nodes(const CAnyValue &cv)
{
    CAnyValue &v = const_cast<CAnyValue &>(cv);
    int n = 1;
    if (v.isArray())
        for (int i = 0; i < (int)v.size(); i++)
            n += nodes(cv[i]);
    if (v.isObject())
    {
        std::vector<S> k = v.keys();
        for (size_t i = 0; i < k.size(); i++)
            n += nodes(cv[k[i]]);
    }
    if (v.isString())
        n += v.size() > 400 ? 0 : v.size() / 4;
    return n;
}
// ---------------------------------------------------------------- values
static S rkey(bool xml = false)
{
    static const char *ks[] = {"a", "b", "key", "list", "x"};
    if (xml || R->chance(6, 8))
        return ks[R->below(5)];
    switch (R->below(5))
    {
    case 0: return "";
    case 1: return S(R->range(250, 255), 'k');
    case 2: return S("q\"\\\n\x01");
    case 3: return S("z\0y", 3);
    default: return "\xc3\xa9";
    }
}
static double rdbl()
{
    char b[64];
    switch (R->below(4))
    {
    case 0: return R->chance(1, 2) ? (double)R->range(-40, 40) / 8 : (double)(1000000000000000ll + R->below(1000000000)) * R->range(1, 9);
    case 1: snprintf(b, sizeof b, "%d.%de%d", R->range(-9, 9), R->below(1000000), R->range(-300, 300)); return strtod(b, 0);
    case 2: snprintf(b, sizeof b, "%d.%d", R->range(-9999999, 9999999), R->below(1000000)); return strtod(b, 0);
    default: snprintf(b, sizeof b, "%de%d", R->range(-99999, 99999), R->below(18)); return strtod(b, 0);
    }
}
static S rstr(bool text = false)
{
    static const int ls[] = {0, 1, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 70000};
    if (!text && R->chance(1, 6))
        return S(ls[R->below(11)], "Az\0\xff"[R->below(4)]);
    S s;
    int n = R->below(12);
    for (int i = 0; i < n; i++)
        switch (R->below(5))
        {
        case 0: s += (char)R->below(32); break;
        case 1: s += "\"\\/<&"[R->below(5)]; break;
        case 2: s += R->chance(1, 2) ? "\xc3\xa9" : "\xf0\x9f\x98\x80"; break;
        default: s += (char)R->range(32, 127);
        }
    if (text && R->chance(1, 20))
        s += S(R->range(250, 300), 'w');
    return s;
}
static const uint64_t edges[] = {0, 1, 127, 128, 254, 255, 256, 32767, 32768, 65534, 65535, 65536, 2147483647u, 2147483648u, 4294967294u,
                                 4294967295u, 4294967296ull, 9223372036854775807ull, 9223372036854775808ull, 9999999999999999999ull,
                                 10000000000000000000ull, 18446744073709551615ull};
static CAnyValue rint_()
{
    uint64_t u = R->chance(1, 4) ? R->next() >> R->below(64) : edges[R->below(sizeof edges / 8)];
    int64_t s = -(int64_t)(u & 0x7fffffffffffffffull) - (int64_t)R->below(2);
    if (u == 9223372036854775808ull)
        s = (int64_t)u;
    switch (R->below(11))
    {
    case 0: return CAnyValue((char)u);
    case 1: return CAnyValue((unsigned char)u);
    case 2: return CAnyValue((short)u);
    case 3: return CAnyValue((unsigned short)u);
    case 4: return CAnyValue((int)u);
    case 5: return CAnyValue((unsigned int)u);
    case 6: return CAnyValue((long)s);
    case 7: return CAnyValue((unsigned long)u);
    case 8: return CAnyValue((long long)s);
    case 9: return CAnyValue((unsigned long long)u);
    default: return CAnyValue((long long)s);
    }
}
// text: what can be written as JSON and read back; xml: what has an exact XML form
static CAnyValue rval(int depth, bool text = false, bool xml = false)
{
    int c = R->below(depth > 0 ? 10 : 6);
    switch (c)
    {
    case 0: return CAnyValue();
    case 1: return CAnyValue((bool)R->below(2));
    case 2: return xml ? rint_() : CAnyValue(rdbl());
    case 3: return rint_();
    case 4: case 5: { S s = rstr(text); if (xml) for (size_t i = 0; i < s.size(); i++) if (s[i] == ']') s[i] = '['; return s.find('\0') == S::npos && R->chance(1, 2) ? CAnyValue(s.c_str()) : CAnyValue(s); }
    case 6: case 7:
    {
        CAnyValue v;
        int n = R->below(5);
        v.push_back(1), v.pop_back();
        for (int i = 0; i < n; i++)
            R->chance(1, 2) ? v.push_back(rval(depth - 1, text, xml)) : v.push_front(rval(depth - 1, text, xml));
        return v;
    }
    default:
    {
        CAnyValue v;
        int n = R->below(5);
        v.insert("a", 1), v.erase("a");
        for (int i = 0; i < n; i++)
            R->chance(1, 2) ? v.insert(rkey(xml), rval(depth - 1, text, xml)) : (void)(v[rkey(xml)] = rval(depth - 1, text, xml));
        return v;
    }
    }
}
// ---------------------------------------------------------------- paths
struct Step { bool key; S k; int i; };
typedef std::vector<Step> Path;
static S jpath(const Path &p)
{
    S r = "[";
    for (size_t i = 0; i < p.size(); i++)
        r += S(i ? "," : "") + (p[i].key ? "{\"k\":" + runs(p[i].k) + "}" : "{\"i\":" + num(p[i].i) + "}");
    return r + "]";
}
// a way into v, mostly one that exists
static Path rpath(const CAnyValue &root, bool longkeys)
{
    Path p;
    const CAnyValue *v = &root;
    for (int d = 0; d < 4 && R->chance(2, 3); d++)
    {
        CAnyValue &m = const_cast<CAnyValue &>(*v);
        Step s;
        s.key = m.isArray() ? R->chance(1, 15) : m.isObject() || m.isNull() ? !R->chance(1, 12) : R->chance(1, 2);
        s.i = 0;
        if (!m.isArray() && !m.isObject() && !m.isNull() && !R->chance(1, 8))
            break;
        if (s.key)
        {
            std::vector<S> k = m.keys();
            s.k = k.size() && R->chance(2, 3) ? k[R->below(k.size())] : longkeys && R->chance(1, 20) ? S(R->chance(1, 2) ? 256 : R->range(257, 270), 'k') : rkey();
            static CAnyValue none;
            p.push_back(s);
            v = &(*v)[s.k.substr(0, 255)];
        }
        else
        {
            int n = m.isArray() ? (int)m.size() : 0;
            s.i = n && !R->chance(1, 10) ? (int)R->below(n) : R->chance(1, 2) ? n + (int)R->below(2) : -1 - (int)R->below(2);
            p.push_back(s);
            if (s.i < 0 || s.i >= n)
                break;
            v = &(*v)[s.i];
        }
    }
    return p;
}
static CAnyValue *walk(CAnyValue *v, const Path &p)
{
    for (size_t i = 0; i < p.size(); i++)
        v = p[i].key ? (p[i].k.find('\0') == S::npos && R->chance(1, 2) ? &(*v)[p[i].k.c_str()] : &(*v)[p[i].k]) : &(*v)[p[i].i];
    return v;
}
static const CAnyValue *see(const CAnyValue *v, const Path &p)
{
    for (size_t i = 0; i < p.size(); i++)
        v = p[i].key ? (p[i].k.find('\0') == S::npos && R->chance(1, 2) ? &(*v)[p[i].k.c_str()] : &(*v)[p[i].k]) : &(*v)[p[i].i];
    return v;
}
static bool prefix(const Path &a, const Path &b)   // a leads to b or above it
{
    if (a.size() > b.size())
        return false;
    for (size_t i = 0; i < a.size(); i++)
        if (a[i].key != b[i].key || a[i].k != b[i].k || a[i].i != b[i].i)
            return false;
    return true;
}
// ---------------------------------------------------------------- the events
static void put(int r, const CAnyValue &v)
{
    S w = dump(v);
    *reg[r] = v;
    out("{\"e\":\"Op\",\"r\":" + num(r + 1) + ",\"p\":[],\"f\":\"set\",\"w\":" + w + ",\"ok\":true,\"v\":" + dump(*reg[r]) + "}");
}
static void op()
{
    int r = R->below(3);
    if (nodes(*reg[r]) > 120)
        put(r, CAnyValue());
    Path p = rpath(*reg[r], true), sp;
    static const char *fs[] = {"set", "pushb", "pushf", "insert", "set", "touch", "erase", "clear", "popb", "popf"};
    S f = fs[R->below(10)], k;
    bool alias = f[0] != 't' && f[0] != 'e' && f[0] != 'c' && f.substr(0, 3) != "pop" && R->chance(1, 2);
    int sr = 0;
    if (alias)
    {
        sr = R->chance(2, 3) ? r : (int)R->below(3);
        sp = rpath(*reg[sr], false);
        for (size_t i = 0; i < sp.size(); i++)
            if (sp[i].key && sp[i].k.size() > 255)
                sp[i].k.resize(255);
        if (sr == r && f != "set" && prefix(sp, p))
            alias = false;     // a value put into itself: not defined
    }
    if (f == "insert" || f == "erase")
        k = rkey();
    if (f == "insert" && R->chance(1, 20))
        k = S(R->chance(1, 2) ? 256 : R->range(257, 300), 'i');
    CAnyValue w = alias ? CAnyValue() : rval(R->below(3));
    if (f == "popb" || f == "popf")
    {
        bool can = false;
        try { CAnyValue &t = const_cast<CAnyValue &>(*see(reg[r], p)); can = t.isArray() && t.size() > 0; } catch (std::exception &) {}
        if (!can)
            f = "touch";
    }
    S e = "{\"e\":\"Op\",\"r\":" + num(r + 1) + ",\"p\":" + jpath(p) + ",\"f\":\"" + f + "\"";
    if (f == "insert" || f == "erase")
        e += ",\"k\":" + runs(k);
    if (alias)
        e += ",\"src\":{\"r\":" + num(sr + 1) + ",\"p\":" + jpath(sp) + "}";
    else if (f[0] == 's' || f[0] == 'i' || f.substr(0, 4) == "push")
        e += ",\"w\":" + dump(w);
    bool ok = true;
    try
    {
        CAnyValue *t = walk(reg[r], p);
        const CAnyValue &s = alias ? *see(reg[sr], sp) : w;
        if (f == "set") *t = s;
        else if (f == "pushb") t->push_back(s);
        else if (f == "pushf") t->push_front(s);
        else if (f == "popb") t->pop_back();
        else if (f == "popf") t->pop_front();
        else if (f == "insert") t->insert(k, s);
        else if (f == "erase") t->erase(k);
        else if (f == "clear") t->clear();
    }
    catch (std::exception &) { ok = false; }
    out(e + ",\"ok\":" + tf(ok) + ",\"v\":" + dump(*reg[r]) + "}");
}
// a value straight from a number, a bool, a text: what it holds is told from that, not from the value
template <class T> static void give(const T &x, const S &w)
{
    int r = R->below(3);
    if (nodes(*reg[r]) > 120)
        put(r, CAnyValue());
    Path p = rpath(*reg[r], false);
    int f = R->below(4);
    S k = rkey(), e = "{\"e\":\"Op\",\"r\":" + num(r + 1) + ",\"p\":" + jpath(p) + ",\"f\":\"" + (f == 0 ? "pushb" : f == 1 ? "pushf" : f == 2 ? "insert" : "set") + "\"";
    bool ok = true;
    try
    {
        CAnyValue *t = walk(reg[r], p);
        if (f == 0) t->push_back(x);
        else if (f == 1) t->push_front(x);
        else if (f == 2) t->insert(k, x);
        else *t = x;
    }
    catch (std::exception &) { ok = false; }
    out(e + (f == 2 ? ",\"k\":" + runs(k) : S()) + ",\"w\":" + w + ",\"ok\":" + tf(ok) + ",\"v\":" + dump(*reg[r]) + "}");
}
template <class T> static void giveint(uint64_t u)
{
    T x = (T)u;
    give(x, "{\"t\":\"int\",\"d\":" + be((uint64_t)x, 8) + ",\"g\":" + tf((T)-1 < 0 && (int64_t)x < 0) + "}");
}
static void given()
{
    uint64_t u = R->chance(1, 4) ? R->next() >> R->below(64) : edges[R->below(sizeof edges / 8)];
    if (R->chance(1, 3))
        u = -u;
    switch (R->below(14))
    {
    case 0: giveint<char>(u); break;
    case 1: giveint<unsigned char>(u); break;
    case 2: giveint<short>(u); break;
    case 3: giveint<unsigned short>(u); break;
    case 4: giveint<int>(u); break;
    case 5: giveint<unsigned int>(u); break;
    case 6: giveint<long>(u); break;
    case 7: giveint<unsigned long>(u); break;
    case 8: giveint<long long>(u); break;
    case 9: giveint<unsigned long long>(u); break;
    case 10: { bool b = R->chance(1, 2); give(b, S("{\"t\":\"bool\",\"b\":") + tf(b) + "}"); break; }
    case 11:
    {
        double d = rdbl();
        if (R->chance(1, 2))
            give(d, "{\"t\":\"flt\",\"f\":" + dbl(d) + "}");
        else
        {
            float g = (float)R->range(-4000, 4000) / 16;
            give(g, "{\"t\":\"flt\",\"f\":" + dbl(g) + "}");
        }
        break;
    }
    default:
    {
        S s = rstr(), w = "{\"t\":\"str\",\"s\":" + runs(s) + "}";
        if (s.find('\0') == S::npos && R->chance(1, 2))
            give(s.c_str(), w);
        else
            give(s, w);
    }
    }
}
static void look()
{
    int r = R->below(3);
    Path p = rpath(*reg[r], false);
    S e = "{\"e\":\"Look\",\"r\":" + num(r + 1) + ",\"p\":" + jpath(p);
    const CAnyValue *v = 0;
    try { v = see(reg[r], p); } catch (std::exception &) {}
    if (!v)
    {
        out(e + ",\"ok\":false}");
        return;
    }
    e += ",\"ok\":true,\"v\":" + dump(*v) + ",\"size\":" + num(v->size());
    int64_t i64 = v->asInt64();
    uint64_t u64 = v->asUInt64();
    int32_t i32 = v->asInt();
    uint32_t u32 = v->asUInt();
    if (R->chance(1, 2))
        i64 = (long long)*v, u64 = (unsigned long long)*v, i32 = (int)*v, u32 = (unsigned int)*v;
    else if (R->chance(1, 2))
        i64 = (long)*v, u64 = (unsigned long)*v;
    int64_t u32w = v->asUInt();    // an unsigned value stays one when widened
    if (u32w < 0)
        u64 = ~u64;
    short i16 = R->chance(1, 2) ? (short)*v : (short)(unsigned short)*v;
    signed char i8 = R->chance(1, 2) ? (signed char)(char)*v : (signed char)(unsigned char)*v;
    bool b = R->chance(1, 2) ? (bool)*v : v->asBool();
    S s = R->chance(1, 2) ? v->asString() : v->data() ? S(v->data(), v->size()) : S();
    e += ",\"i64\":" + be(i64, 8) + ",\"u64\":" + be(u64, 8) + ",\"i32\":" + be((uint32_t)i32, 4) + ",\"u32\":" + be(u32, 4) + ",\"i16\":" + be((uint16_t)i16, 2) +
         ",\"i8\":" + be((uint8_t)i8, 1) + ",\"b\":" + tf(b) + ",\"f\":" + dbl((double)*v) + ",\"s\":" + runs(s) + ",\"keys\":[";
    std::vector<S> k = v->keys();
    for (size_t i = 0; i < k.size(); i++)
        e += (i ? "," : "") + runs(k[i]);
    e += "],\"has\":[";
    for (int i = 0; i < 3; i++)
    {
        S h = i == 0 && k.size() ? k[R->below(k.size())] : rkey();
        e += S(i ? "," : "") + "{\"k\":" + runs(h) + ",\"y\":" + tf(v->hasKey(h)) + "}";
    }
    out(e + "]}");
}
static S bin(int r)
{
    S b;
    if (R->chance(1, 2))
        b = reg[r]->encode();
    else
    {
        S x = "head";
        reg[r]->encode(x);
        b = x.substr(0, 4) == "head" ? x.substr(4) : "?";
    }
    out("{\"e\":\"Enc\",\"r\":" + num(r + 1) + ",\"b\":" + runs(b) + "}");
    return b;
}
static void unbin(int r, const S &b)
{
    char *p = (char *)malloc(b.size() ? b.size() : 1);
    memcpy(p, b.data(), b.size());
    bool ok = true;
    try
    {
        if (R->chance(1, 2))
            reg[r]->decode(p, b.size());
        else
            reg[r]->decode((unsigned char *)p, b.size());
    }
    catch (std::exception &) { ok = false; }
    free(p);
    out("{\"e\":\"Dec\",\"r\":" + num(r + 1) + ",\"b\":" + runs(b) + ",\"ok\":" + tf(ok) + ",\"v\":" + dump(*reg[r]) + "}");
}
// bytes of a value in some width that holds it, not only the smallest
static void wnum(S &b, uint64_t x, int n) { for (int i = n - 1; i >= 0; i--) b += (char)(x >> (8 * i)); }
static void enc(S &b, int depth)
{
    static const int w[] = {1, 2, 4, 8};
    int c = R->below(depth > 0 ? 12 : 9);
    uint64_t u = R->chance(1, 3) ? R->next() : edges[R->below(sizeof edges / 8)];
    switch (c)
    {
    case 0: b += (char)12; break;
    case 1: b += (char)11, b += (char)R->below(3); break;
    case 2: b += (char)10, wnum(b, R->next(), 8); break;
    case 3: case 4: { int k = R->below(4); b += (char)k; wnum(b, u, w[k]); break; }
    case 5: case 6: { int k = R->chance(1, 2) ? 3 : R->below(4); if (R->chance(1, 3)) { static const int at[] = {7, 8, 15, 16, 31, 32, 63}; u = (1ull << at[R->below(7)]) - 1 + R->below(3); } b += (char)(13 + k); wnum(b, R->chance(1, 2) ? u : -u, w[k]); break; }
    case 7: case 8: { S s = rstr(); if (s.size() > 60000 && R->chance(1, 2)) s.resize(20); int k = s.size() < 256 ? R->below(3) : s.size() < 65536 ? 1 + R->below(2) : 2; b += (char)(4 + k); wnum(b, s.size(), w[k]); b += s; break; }
    case 9: { int n = R->below(5); b += (char)7; wnum(b, n, 4); while (n--) enc(b, depth - 1); break; }
    default: { int n = R->below(5); b += (char)8; wnum(b, n, 4); while (n--) { S k = rkey(); b += (char)k.size(); b += k; enc(b, depth - 1); } }
    }
}
static bool ext(const S &b)   // could a value of the customer's type come up?
{
    return b.find((char)9) != S::npos;
}
// a length that goes past the end, by a little or by a lot
static void badlen(S &b)
{
    std::vector<size_t> at;
    for (size_t i = 0; i < b.size() && i < 200; i++)
        if (b[i] >= 4 && b[i] <= 8)
            at.push_back(i);
    if (at.empty())
        return;
    size_t p = at[R->below(at.size())], n = b[p] == 4 ? 1 : b[p] == 5 ? 2 : 4, left = b.size() - p - 1;
    uint32_t v = R->chance(1, 2) ? 0u - R->range(1, 12) - (R->chance(1, 2) ? (uint32_t)p : 0) : (uint32_t)left - n + R->range(0, 3);
    if (R->chance(1, 4))
        v = 0x80000000u - R->below(3);
    S w;
    wnum(w, v, 4);
    for (size_t i = 0; i < n && p + 1 + i < b.size(); i++)
        b[p + 1 + i] = w[4 - n + i];
}
static void binary(int h)
{
    int n = R->range(6, 14);
    for (int i = 0; i < n; i++)
    {
        int r = R->below(3);
        if (R->chance(1, 3))
        {
            put(r, rval(R->below(4)));
            S b = bin(r);
            int t = R->below(3);
            if (R->chance(1, 4))
                b += S(R->range(1, 9), (char)R->below(256));     // more may follow
            unbin(t, b);
            if (R->chance(1, 2))
                bin(t);
        }
        else
        {
            S b;
            enc(b, R->below(4));
            int k = R->below(5);
            if (k == 1)
                b.resize(R->below(b.size()));                    // cut
            else if (k == 2 && b.size())
                for (int j = R->range(1, 2); j > 0; j--)
                    b[R->below(b.size() < 40 ? b.size() : 40)] = (char)(R->chance(1, 2) ? R->below(256) : R->below(18));
            else if (k == 3 && b.size())
            {
                if (R->chance(1, 3))
                    b[0] = (char)R->range(17, 255);
                else
                    badlen(b);
            }
            if (ext(b))
                continue;
            unbin(r, b);
            if (R->chance(1, 2))
                bin(r);
        }
    }
    out("{\"e\":\"End\"}");
}
// ---------------------------------------------------------------- text
// the numbers in it which have a fraction or an exponent, with their values
static S table(const S &b)
{
    S r = "[";
    std::vector<S> seen;
    for (size_t i = 0; i < b.size();)
    {
        size_t j = i;
        while (j < b.size() && b[j] && strchr("0123456789+-.eE", b[j]))
            j++;
        S t = b.substr(i, j - i);
        if (j > i && t.find_first_of(".eE") != S::npos && (isdigit(t[0]) || t[0] == '-'))
        {
            char *e = 0;
            double d = strtod(t.c_str(), &e);
            bool dup = false;
            for (size_t k = 0; k < seen.size(); k++)
                dup |= seen[k] == t;
            if (!*e && !dup && d - d == 0)
            {
                r += S(seen.size() ? "," : "") + "{\"t\":" + bytes(t) + ",\"d\":" + dbl(d) + "}";
                seen.push_back(t);
            }
        }
        i = j > i ? j : i + 1;
    }
    return r + "]";
}
// a double which 16 digits tell from all others
static bool exact(double d)
{
    char b[64];
    snprintf(b, sizeof b, "%.16g", d);
    return d - d == 0 && strtod(b, 0) == d;
}
static bool writable(const CAnyValue &cv)
{
    CAnyValue &v = const_cast<CAnyValue &>(cv);
    bool ok = !v.isFloat() || exact((double)v);
    if (v.isArray())
        for (int i = 0; i < (int)v.size(); i++)
            ok = ok && writable(cv[i]);
    if (v.isObject())
    {
        std::vector<S> k = v.keys();
        for (size_t i = 0; i < k.size(); i++)
            ok = ok && writable(cv[k[i]]);
    }
    return ok;
}
static void tojson(int r)
{
    S b;
    if (!writable(*reg[r]))
        return;
    if (R->chance(1, 2))
        b = reg[r]->encodeJSON();
    else
    {
        b = "pre";
        reg[r]->encodeJSON(b);
        b = b.substr(0, 3) == "pre" ? b.substr(3) : "?";
    }
    out("{\"e\":\"JEnc\",\"r\":" + num(r + 1) + ",\"b\":" + bytes(b) + ",\"F\":" + table(b) + "}");
}
static void fromjson(int r, const S &b, const S &rest = "")
{
    char *p = (char *)malloc(b.size() ? b.size() : 1);
    memcpy(p, b.data(), b.size());
    bool ok = true;
    try { reg[r]->decodeJSON(p, b.size()); }
    catch (std::exception &) { ok = false; }
    free(p);
    out("{\"e\":\"JDec\",\"r\":" + num(r + 1) + ",\"b\":" + bytes(b) + ",\"rest\":" + bytes(rest) + ",\"F\":" + table(b + rest) + ",\"ok\":" + tf(ok) +
        ",\"v\":" + dump(*reg[r]) + "}");
}
static S ws() { S s; while (R->chance(1, 4)) s += " \t\r\n"[R->below(4)]; return s; }
static S hex4(unsigned u) { char b[8]; snprintf(b, sizeof b, R->chance(1, 2) ? "%04x" : "%04X", u); return S("\\u") + b; }
static S qstr()
{
    S s = "\"";
    int n = R->below(10);
    for (int i = 0; i < n; i++)
        switch (R->below(7))
        {
        case 0: s += "\\"; s += "\"\\/bfnrt"[R->below(8)]; break;
        case 1: { static const unsigned lim[] = {0, 1, 0x1f, 0x20, 0x7f, 0x80, 0x7fe, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff}; unsigned u = R->chance(1, 4) ? lim[R->below(14)] : R->chance(1, 2) ? R->below(0x800) : R->below(0x10000); if (u >= 0xd800 && u < 0xe000) u = 0x20ac; s += hex4(u); break; }
        case 2: if (R->chance(1, 2)) { static const unsigned lim[] = {0, 1, 0x3ff, 0x200}; s += hex4(0xd800 + (R->chance(1, 2) ? lim[R->below(4)] : R->below(0x400))); s += hex4(0xdc00 + (R->chance(1, 2) ? lim[R->below(4)] : R->below(0x400))); } break;
        case 3: s += "\xe4\xbd\xa0"; break;
        default: { char c = R->range(32, 126); s += c == '"' || c == '\\' ? 'c' : c; }
        }
    return s + "\"";
}
static S qnum()
{
    char b[80];
    switch (R->below(5))
    {
    case 0: snprintf(b, sizeof b, "%llu", (unsigned long long)edges[R->below(sizeof edges / 8)]); break;
    case 1: snprintf(b, sizeof b, "-%llu", (unsigned long long)(edges[R->below(sizeof edges / 8)] & 0x7fffffffffffffffull)); break;
    case 2: snprintf(b, sizeof b, "%s%d.%d%d", R->chance(1, 2) ? "-" : "", R->below(2000), R->below(10000), R->below(10000)); break;
    case 3: snprintf(b, sizeof b, "%s%d%c%s%d", R->chance(1, 2) ? "-" : "", R->below(2000), "eE"[R->below(2)], R->chance(1, 2) ? "" : R->chance(1, 2) ? "-" : "+", R->below(20)); break;
    default: snprintf(b, sizeof b, "%d.%dE%s%d", R->below(2000), R->below(1000), R->chance(1, 2) ? "" : R->chance(1, 2) ? "-" : "+", R->below(200)); break;
    }
    return b;
}
static S text(int depth)
{
    int c = R->below(depth > 0 ? 9 : 5);
    switch (c)
    {
    case 0: return R->chance(1, 3) ? "null" : R->chance(1, 2) ? "true" : "false";
    case 1: case 2: return qnum();
    case 3: case 4: return qstr();
    case 5: case 6: { S s = "["; int n = R->below(5); for (int i = 0; i < n; i++) s += (i ? "," : "") + ws() + text(depth - 1) + ws(); return s + (n ? "" : ws()) + "]"; }
    default: { S s = "{"; int n = R->below(5); for (int i = 0; i < n; i++) { char k[8]; snprintf(k, sizeof k, "\"k%d", i); S key = k + qstr().substr(1); s += (i ? "," : "") + ws() + key + ws() + ":" + ws() + text(depth - 1) + ws(); } return s + (n ? "" : ws()) + "}"; }
    }
}
static void json(int h)
{
    int n = R->range(5, 10);
    for (int i = 0; i < n; i++)
    {
        int r = R->below(3);
        int k = R->below(6);
        if (k == 0)
        {
            put(r, rval(R->below(4), true));
            tojson(r);
            S b = reg[r]->encodeJSON();
            fromjson(R->below(3), b);
        }
        else if (k == 1)
        {
            put(r, rval(R->below(4), true, true));
            S b, hd = "", tl = "";
            if (R->chance(1, 2))
                b = reg[r]->encodeXML();
            else
            {
                bool u = R->chance(1, 2);
                hd = S("<?xml version=\"1.0\" encoding=\"") + (u ? "UTF-8" : "GB2312") + "\"?><xmldata>", tl = "</xmldata>";
                if (R->chance(1, 2))
                    b = reg[r]->encodeXMLWithHead(u);
                else
                    reg[r]->encodeXMLWithHead(b, u);
            }
            out("{\"e\":\"Xml\",\"r\":" + num(r + 1) + ",\"b\":" + bytes(b) + ",\"head\":" + bytes(hd) + ",\"tail\":" + bytes(tl) + "}");
        }
        else
        {
            S t = ws() + text(R->below(4)) + ws();
            int m = R->below(6);
            if (m < 3)
                fromjson(r, t);
            else if (m == 3)
            {
                size_t c = R->below(t.size());
                fromjson(r, t.substr(0, c), t.substr(c));
            }
            else
            {
                for (int j = R->range(1, 3); j > 0 && t.size(); j--)
                {
                    size_t c = R->below(t.size());
                    int w = R->below(3);
                    if (w == 0) t[c] = (char)(R->chance(1, 2) ? R->below(256) : "{}[]\",:\\u-.e0"[R->below(13)]);
                    else if (w == 1) t.erase(c, 1);
                    else t.insert(c, 1, "{}[]\",:\\u-.e0"[R->below(13)]);
                }
                fromjson(r, t);
            }
            if (R->chance(1, 3))
                tojson(r);
        }
        if (nodes(*reg[r]) > 200)
            put(r, CAnyValue());
    }
    out("{\"e\":\"End\"}");
}
// ---------------------------------------------------------------- packages
static void pkg()
{
    int r = R->below(3);
    lce::CAnyPackage a, b;
    uint64_t uid = R->chance(1, 2) ? R->next() : R->below(100000);
    uint32_t f[8];
    for (int i = 0; i < 8; i++)
        f[i] = R->chance(1, 2) ? (uint32_t)R->next() : R->below(100000);
    uint16_t ver = R->next();
    uint8_t stx = R->chance(1, 2) ? 2 : R->below(256);
    lce::AnyHeader hd;
    lce::AnyHeader *w = R->chance(1, 2) ? &hd : &a.head();
    w->setStx(stx), w->setLen(f[0]), w->setVersion(ver), w->setServiceId(f[1]), w->setCmd(f[2]), w->setSeq(f[3]), w->setFormat(f[4]), w->setUid(uid);
    w->setClientIp(f[5]), w->setErrno(f[6]), w->setFlag(f[7]);
    if (w == &hd)
        a.setHead(hd);
    a.setRoot(*reg[r]);
    a.encode();
    if (R->chance(1, 2))
        a.encode();
    bool etx = R->chance(1, 2);
    if (etx)
        a.setEtx();
    S by(a.data(), a.size());
    char *p = (char *)malloc(by.size());
    memcpy(p, by.data(), by.size());
    if (R->chance(1, 2))
        b.setRoot(rval(1));
    S err;
    try { b.decode(p, by.size()); } catch (std::exception &) { err = ",\"threw\":1"; }
    free(p);
    lce::AnyHeader &g = b.head();
    S h1 = "{\"stx\":" + num(stx) + ",\"len\":" + be(f[0], 4) + ",\"ver\":" + be(ver, 2) + ",\"sid\":" + be(f[1], 4) + ",\"cmd\":" + be(f[2], 4) + ",\"seq\":" + be(f[3], 4) +
           ",\"fmt\":" + be(f[4], 4) + ",\"uid\":" + be(uid, 8) + ",\"ip\":" + be(f[5], 4) + ",\"err\":" + be(f[6], 4) + ",\"flag\":" + be(f[7], 4) + "}";
    S h2 = "{\"stx\":" + num(g.getStx()) + ",\"len\":" + be(g.getLen(), 4) + ",\"ver\":" + be(g.getVersion(), 2) + ",\"sid\":" + be(g.getServiceId(), 4) + ",\"cmd\":" + be(g.getCmd(), 4) +
           ",\"seq\":" + be(g.getSeq(), 4) + ",\"fmt\":" + be(g.getFormat(), 4) + ",\"uid\":" + be(g.getUid(), 8) + ",\"ip\":" + be(g.getClientIp(), 4) + ",\"err\":" + be(g.getErrno(), 4) +
           ",\"flag\":" + be(g.getFlag(), 4) + "}";
    out("{\"e\":\"Pkg\",\"r\":" + num(r + 1) + ",\"h\":" + h1 + ",\"h2\":" + h2 + ",\"b\":" + runs(by) + ",\"etx\":" + (etx ? "[3]" : "[]") + ",\"v\":" + dump(b.getRoot()) + err + "}");
}
static void ops(int h)
{
    int n = R->range(15, 40);
    for (int i = 0; i < n; i++)
    {
        int k = R->below(16);
        if (k < 7) op();
        else if (k < 9) given();
        else if (k < 13) look();
        else if (k == 13) { S b = bin(R->below(3)); if (R->chance(1, 2)) unbin(R->below(3), b); }
        else if (k == 14) pkg();
        else
        {
            int a = R->below(3), b = R->below(3);   // a copy is independent of its origin
            CAnyValue c(*reg[a]);
            put(b, c);
        }
    }
    out("{\"e\":\"End\"}");
}
// ---------------------------------------------------------------- nesting
static int depth(const CAnyValue &v)
{
    int d = 0;
    const CAnyValue *p = &v;
    for (;;)
    {
        CAnyValue &m = const_cast<CAnyValue &>(*p);
        if (m.isArray() && m.size() == 1)
            p = &(*p)[0];
        else if (m.isObject() && m.size() == 1)
            p = &(*p)["k"];
        else
            return d;
        d++;
    }
}
static void deep(int h)
{
    static const int ns[] = {1, 2, 100, 256, 1000, 5000, 30000, 300000, 3000000};
    for (int i = 0; i < 6; i++)
    {
        int n = i < 2 ? R->range(1, 256) : ns[R->below(9)], kind = (g_mode == "deepjson" ? 0 : 2) + (int)R->below(2);
        bool whole = R->chance(2, 3);
        S s;
        for (int j = 0; j < n; j++)
            if (kind == 0) s += "[";
            else if (kind == 1) s += "{\"k\":";
            else if (kind == 2) s += S("\x07\0\0\0\1", 5);
            else s += S("\x08\0\0\0\1\1k", 7);
        if (whole)
        {
            s += kind < 2 ? S("1") : S("\0\1", 2);
            if (kind < 2)
                s += S(n, kind == 0 ? ']' : '}');
        }
        CAnyValue v;
        bool ok = true;
        char *p = (char *)malloc(s.size());
        memcpy(p, s.data(), s.size());
        try { kind < 2 ? v.decodeJSON(p, s.size()) : v.decode(p, s.size()); }
        catch (std::exception &) { ok = false; }
        free(p);
        out("{\"e\":\"Deep\",\"kind\":" + num(kind) + ",\"n\":" + num(n) + ",\"whole\":" + tf(whole) + ",\"ok\":" + tf(ok) + ",\"d\":" + num(ok ? depth(v) : 0) + "}");
    }
    out("{\"e\":\"End\"}");
}
static void hist(int h, Rng &rng)
{
    R = &rng;
    for (int i = 0; i < 3; i++)
        reg[i] = new CAnyValue();
    emit("{\"e\":\"Reset\"}");
    if (g_mode == "ops") ops(h);
    else if (g_mode == "bin") binary(h);
    else if (g_mode == "json") json(h);
    else deep(h);
    for (int i = 0; i < 3; i++)
        delete reg[i];
}
int main(int argc, char **argv) { return run_histories(argc, argv, hist); }
