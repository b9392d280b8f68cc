// CHttpReader ("req"), CHttpWriter ("resp"), the codings, dates and string helpers ("util"); "conc": all of them in
// several threads at once, each on objects of its own. What the code is given lives in buffers of exactly its size.
#include "vrt.h"
#include "dutil.h"
#include <string.h>
#include <time.h>
#include "CHttpReader.h"
#include "CHttpWriter.h"
#include "StringHelper.h"
using namespace vrt;
typedef std::string S;
static __thread Rng *R;
static bool g_conc;

// the result of these belongs to everybody: whoever uses them in several threads shall be seen
extern "C" struct tm *gmtime(const time_t *t) noexcept
{
    static struct tm b;
    gmtime_r(t, &b);
    if (g_conc)
        point();
    return &b;
}
// ---------------------------------------------------------------- JSON for the trace
static S num(long long n) { char b[32]; snprintf(b, sizeof b, "%lld", n); return b; }
static S bytes(const S &s)
{
    S r = "[";
    for (size_t i = 0; i < s.size(); i++)
        r += (i ? "," : "") + num((unsigned char)s[i]);
    return r + "]";
}
static const char *tf(bool b) { return b ? "true" : "false"; }
static void out(const S &s) { emit("%s", s.c_str()); }
struct Exact // a zero terminated or not terminated text in a buffer of exactly its size
{
    char *p;
    Exact(const S &s, bool z = false) : p((char *)malloc(s.size() + z))
    {
        memcpy(p, s.c_str(), s.size() + z);
    }
    ~Exact() { free(p); }
};
static S when(time_t t)
{
    return "{\"d\":" + num(t / 86400) + ",\"s\":" + num(t % 86400) + "}";
}
template <class T> static const T &pick(const std::vector<T> &v) { return v[R->below(v.size())]; }
static S word(const char *chars, int lo, int hi)
{
    S s;
    int n = strlen(chars);
    for (int i = R->range(lo, hi); i > 0; i--)
        s += chars[R->below(n)];
    return s;
}
static time_t rtime()
{
    static const time_t special[] = {1, 59, 3600, 86399, 86400, 951782399, 951782400, 951868800, 1709164799, 1709251199, 2208988799, 946684799, 978307200, 1078012800, 1583020799};
    if (R->chance(1, 3))
        return std::min<time_t>(special[R->below(15)] + R->below(3), 2208988799);
    return 1 + (time_t)(((uint64_t)R->below(2147483647) << 1 | R->below(2)) % 2208988798ull);
}
// ---------------------------------------------------------------- requests
static S coded(const S &s)
{
    S r;
    for (size_t i = 0; i < s.size(); i++)
    {
        char b[8];
        unsigned char c = s[i];
        if (isalnum(c) && !R->chance(1, 12))
            r += c;
        else if (c == ' ' && R->chance(1, 2))
            r += '+';
        else
            snprintf(b, sizeof b, R->chance(1, 2) ? "%%%02X" : "%%%02x", c), r += b;
    }
    return r;
}
static const char *KEYS[] = {"a", "b", "id", "name", "x-y", "A", "", "session", "k1", "k2"};
static S key() { return R->chance(1, 20) ? word("abck1", 1, 6) : KEYS[R->below(10)]; }
static S value()
{
    switch (R->below(6))
    {
    case 0: return "";
    case 1: return num(R->below(R->chance(1, 2) ? 300 : 100000));
    case 2: return word("0123456789", 1, 8);
    case 3: return word("ab= &;+%\r\n\"?:-", 1, 8);
    case 4: { S s; for (int i = R->range(1, 6); i > 0; i--) s += (char)R->below(256); return s; }
    default: return word("abcXYZ09 -_.", 1, 10);
    }
}
static S form(const char *sep)
{
    S s;
    int n = R->below(6);
    for (int i = 0; i < n; i++)
    {
        s += i ? sep : "";
        if (strcmp(sep, "&") && i && R->chance(3, 4))
            s += S(R->range(1, 2), ' ');
        if (R->chance(1, 12))
            s += word("ab", 0, 2); // says nothing
        else
            s += key() + "=" + (R->chance(1, 8) ? word("abc=1", 0, 5) : coded(value()));
    }
    if (R->chance(1, 12))
        s += sep;
    return s;
}
static S cased(const S &k)
{
    S s = k;
    int m = R->below(4);
    for (size_t i = 0; i < s.size(); i++)
        s[i] = m == 1 ? tolower(s[i]) : m == 2 ? toupper(s[i]) : m == 3 && R->chance(1, 2) ? s[i] ^ (isalpha(s[i]) ? 32 : 0) : s[i];
    return s;
}
static S hval()
{
    switch (R->below(4))
    {
    case 0: return word("abc/;=,.:*-_19", 1, 20);
    case 1: return word("abc, ", 0, 10) + "z";
    case 2: return num(R->below(100000));
    default: return "Mozilla/5.0 (a: b)";
    }
}
static const char *HEADS[] = {"Host", "User-Agent", "Accept", "Referer", "X-Test", "Accept-Language", "Accept-Encoding", "Connection",
                              "Cache-Control", "If-Match", "If-None-Match", "If-Range", "X-Empty", "Content-Length", "Content-Type", "Cookie", "If-Modified-Since"};
static const int NHEADS = 17;
static S multipart(const S &b)
{
    S s;
    int n = R->below(5);
    for (int i = 0; i < n; i++)
    {
        S k = word("abk1 .", 1, 4), v = R->chance(1, 4) ? word("ab\r\n-", 0, 20) : value();
        if (R->chance(1, 8))
            v += "filename=\"v.txt\"; name=\"zz\"\r\nContent-Type: a/b\r\n" + S(R->chance(1, 2) ? "\r\n" : "");
        bool file = R->chance(2, 5);
        s += "--" + b + "\r\nContent-Disposition: form-data; name=\"" + k + "\"";
        if (file)
            s += "; filename=\"" + word("abc. -_", 1, 8) + "\"\r\nContent-Type: " + (R->chance(1, 2) ? "text/plain" : "image/" + word("abc", 1, 4));
        if (R->chance(1, 4))
            s += "\r\nContent-Transfer-Encoding: binary";
        s += "\r\n\r\n" + v + "\r\n";
    }
    if (R->chance(1, 10))
        s += "--" + b + word("\r\nx", 0, 3);
    return s + "--" + b + "--" + (R->chance(7, 8) ? "\r\n" : "");
}
static S request(bool &multi)
{
    int c = R->below(8);
    S m = c < 3 ? "GET" : c < 7 ? "POST" : R->chance(1, 2) ? "HEAD" : R->chance(1, 2) ? "PUT" : "get";
    S uri = "/" + word("abc/._-~", 0, 10), ct, body, hs;
    if (m == "GET" ? R->chance(2, 3) : m == "POST" && R->chance(1, 5))
        uri += "?" + form("&");
    multi = m == "POST" && R->chance(2, 5);
    if (multi)
    {
        S b = R->chance(1, 2) ? "----WebKitForm" + word("abcXYZ019", 1, 6) : word("ab-x", 1, 6);
        ct = "multipart/form-data; boundary=" + b;
        body = multipart(b);
    }
    else if (m == "POST")
    {
        body = R->chance(1, 4) ? value() : form("&");
        if (R->chance(1, 2))
            ct = "application/x-www-form-urlencoded";
    }
    int order[NHEADS];
    for (int i = 0; i < NHEADS; i++)
        order[i] = i;
    for (int i = 0; i < NHEADS; i++)
        std::swap(order[i], order[R->below(NHEADS)]);
    for (int i = 0; i < NHEADS; i++)
    {
        S k = HEADS[order[i]], v;
        if (k == "Content-Type")
        {
            if (ct.empty())
                continue;
            v = ct;
        }
        else if (k == "Content-Length")
        {
            if (m != "POST")
                continue;
            v = num(body.size());
        }
        else if (!R->chance(1, k == "Cookie" ? 2 : 5))
            continue;
        else if (k == "Cookie")
            v = form(";");
        else if (k == "If-Modified-Since")
            v = lce::GetGMTDate(rtime());
        else if (k != "X-Empty")
            v = hval();
        while (v.size() && v[v.size() - 1] == ' ')
            v.resize(v.size() - 1);
        int sp = R->below(12);
        hs += cased(k) + ":" + (v.empty() || sp == 0 ? "" : sp == 1 ? "  " : sp == 2 ? "\t" : " ") + v + "\r\n";
    }
    return m + " " + uri + " HTTP/1." + (R->chance(1, 4) ? "0" : "1") + "\r\n" + hs + "\r\n" + body;
}
static void spoil(S &s)
{
    static const char *bits[] = {"\r\n", "\r\n\r\n", ": ", ":", " ", "%", "=", "&", ";", "--", "?", "\"", "name=\"", "GET ", "%4", "+"};
    for (int j = R->range(1, 4); j > 0 && s.size(); j--)
    {
        size_t c = R->below(s.size() + 1);
        switch (R->below(5))
        {
        case 0: s.erase(c); break;
        case 1: s.erase(c, R->range(1, 6)); break;
        case 2: s.insert(c, bits[R->below(16)]); break;
        case 3: if (c < s.size()) s[c] = (char)R->range(1, 255); break;
        default: { size_t d = R->below(s.size() + 1); s.insert(c, s.substr(d, R->below(20))); }
        }
    }
}
static void one_req(lce::CHttpReader &rd, bool fresh)
{
    bool multi;
    S b = request(multi);
    if (R->chance(1, 4))
        spoil(b);
    Exact e(b);
    if (R->chance(1, 10))
        rd.clear();
    bool ok = rd.setData(e.p, b.size());
    static const char *cmd[] = {"GET", "POST", "HEAD"};
    S body;
    rd.getValue(body);
    S o = "{\"e\":\"Req\",\"b\":" + bytes(b) + ",\"ok\":" + tf(ok) + ",\"cmd\":\"" + (ok ? cmd[rd.getCommand()] : "") + "\",\"uri\":" + bytes(rd.getURI()) +
          ",\"ver\":" + bytes(rd.getVersion()) + ",\"body\":" + bytes(body) + ",\"cookie\":" + bytes(rd.getCookieList()) + ",\"heads\":[";
    struct { const char *k; const char *v; } acc[] = {
        {"host", rd.getHost()}, {"user-agent", rd.getUserAgent()}, {"accept", rd.getAccept()}, {"referer", rd.getReferer()}, {"accept-language", rd.getAcceptLanguage()},
        {"content-type", rd.getContentType()}, {"accept-encoding", rd.getAcceptEncoding()}, {"connection", rd.getConnection()}, {"cache-control", rd.getCacheControl()},
        {"if-match", rd.getIfMatch()}, {"if-none-match", rd.getIfNoneMatch()}, {"if-range", rd.getIfRange()}};
    for (int i = 0; i < 12; i++)
        o += (i ? "," : "") + S("{\"k\":") + bytes(acc[i].k) + ",\"v\":" + bytes(acc[i].v) + "}";
    for (int i = 0; i < NHEADS; i++)
    {
        S k = cased(HEADS[i]);
        if (R->chance(1, 3) || k.size() < 2)
            o += ",{\"k\":" + bytes(k) + ",\"v\":" + bytes(rd.getHead(k)) + "}";
    }
    o += ",{\"k\":" + bytes("nosuch") + ",\"v\":" + bytes(rd.getHead("NoSuch")) + "}],\"cookies\":[";
    for (int i = 0; i < 10; i++)
    {
        S k = KEYS[i], d = R->chance(1, 2) ? "" : "dflt", v = "old";
        S &r = rd.getCookie(k, v, d);
        o += (i ? "," : "") + S("{\"k\":") + bytes(k) + ",\"v\":" + bytes(r) + ",\"d\":" + bytes(d) + "}";
    }
    o += "],\"vals\":[";
    const std::map<S, S> &l = rd.getValueList();
    std::vector<S> ks(KEYS, KEYS + 10);
    if (multi)
        for (std::map<S, S>::const_iterator i = l.begin(); i != l.end() && ks.size() < 14; ++i)
            ks.push_back(i->first);
    for (size_t i = 0; i < ks.size(); i++)
    {
        S d = R->chance(1, 2) ? "" : "dflt", v = "old";
        S &r = rd.getValue(ks[i], v, d);
        o += (i ? "," : "") + S("{\"k\":") + bytes(ks[i]) + ",\"v\":" + bytes(r) + ",\"d\":" + bytes(d) + "}";
    }
    o += "],\"nums\":[";
    for (size_t i = 0; i < 12; i++)
    {
        S k = ks[R->below(ks.size())];
        int d = R->below(3) ? R->below(200) : 0, m = 0;
        bool c = R->chance(1, 2);
        long long v = 7;
        switch (R->below(c ? 3 : 5))
        {
        case 0: { int x = 7; int y = c ? rd.getCookie(k, x, d) : rd.getValue(k, x, d); v = y == x ? x : -7; break; }
        case 1: { unsigned long x = 7, y = c ? rd.getCookie(k, x, (unsigned long)d) : rd.getValue(k, x, (unsigned long)d); v = y == x ? (long long)x : -7; break; }
        case 2: { unsigned char x = 7, y = c ? rd.getCookie(k, x, (unsigned char)d) : rd.getValue(k, x, (unsigned char)d); v = y == x ? x : -7; m = 256; break; }
        case 3: { unsigned short x = 7, y = rd.getValue(k, x, (unsigned short)d); v = y == x ? x : -7; m = 65536; break; }
        default: { bool x = false; d = d != 0; bool y = rd.getValue(k, x, d != 0); v = y == x ? x : -7; m = 2; }
        }
        o += (i ? "," : "") + S("{\"k\":") + bytes(k) + ",\"v\":" + num(v) + ",\"d\":" + num(d) + ",\"c\":" + tf(c) + ",\"m\":" + num(m) + "}";
    }
    o += "],\"files\":[";
    for (size_t i = 0; i < ks.size(); i++)
        o += (i ? "," : "") + S("{\"k\":") + bytes(ks[i]) + ",\"v\":" + bytes(rd.getFile(ks[i])) + ",\"fn\":" + bytes(rd.getFileName(ks[i])) +
             ",\"ct\":" + bytes(rd.getFileType(ks[i])) + "}";
    o += "],\"list\":[";
    bool first = true;
    for (std::map<S, S>::const_iterator i = l.begin(); i != l.end(); ++i, first = false)
        o += (first ? "" : ",") + S("{\"k\":") + bytes(i->first) + ",\"v\":" + bytes(i->second) + "}";
    time_t ims = rd.getIfModifiedSinceTime();
    o += "],\"clen\":" + num((int)rd.getContentLength()) + ",\"ims\":" + when(ims) + "}";
    (void)fresh;
    out(o);
}
// ---------------------------------------------------------------- responses
static S piece(const S &s) { return s.empty() ? S("") : "{\"b\":" + bytes(s) + "}"; }
static S want(const char *k, const S &v) { return S("{\"k\":") + bytes(k) + ",\"v\":[" + piece(v) + "]}"; }
static S wantt(const char *k, time_t t) { return S("{\"k\":") + bytes(k) + ",\"v\":[{\"t\":" + when(t) + "}]}"; }
static S lowered(S s)
{
    for (size_t i = 0; i < s.size(); i++)
        s[i] = tolower(s[i]);
    return s;
}
static S longish() { return "a" + (R->chance(1, 6) ? word("abc, ;=", R->range(900, 1000), 1400) + "z" : hval()); }
static void one_resp(lce::CHttpWriter &w, bool fresh)
{
    if (!fresh || R->chance(1, 2))
        w.begin();
    if (!g_conc)
        advance_us(R->below(200000000));
    std::vector<S> ws;
    int code = 200, len = 0;
    S conn = "Close", type = "text/html", cc, loc, etag, body;
    time_t lm = 0, ex = 0;
    static const int codes[] = {100, 101, 200, 201, 204, 206, 301, 302, 304, 307, 400, 401, 403, 404, 405, 500, 502, 503, 504, 505};
    std::map<S, S> heads;
    struct Ck { S v, d, p; time_t t; };
    std::map<S, Ck> cks;
    for (int i = R->below(12); i > 0; i--)
    {
        S b;
        switch (R->below(15))
        {
        case 0: w.setStatusCode(code = codes[R->below(20)]); break;
        case 1: conn = R->chance(1, 2) ? "Keep-Alive" : "Close"; conn == "Close" ? w.setConnection() : w.setConnection(conn); break;
        case 2: type = R->chance(1, 2) ? "text/html" : longish(); type == "text/html" ? w.setContentType() : w.setContentType(type); break;
        case 3: w.setCacheControl(cc = longish()); break;
        case 4: w.setBodyLen(len = R->chance(1, 2) ? R->below(100000) : 0); break;
        case 5: w.setLocation(loc = "/" + longish()); break;
        case 6: w.setLastModified(lm = rtime()); break;
        case 7: w.setExpires(ex = rtime()); break;
        case 8: w.setETag(etag = "\"" + longish() + "\""); break;
        case 9: case 10: { S k = "X-" + word("abAB", 1, 3); b = longish(); w.setHead(k, b); heads[k] = b; break; }
        case 11:
        case 12:
        {
            S k = word("abs", 1, 2);
            if (cks.count(k))
                break;
            Ck c;
            c.d = R->chance(1, 2) ? "" : "example.com";
            c.p = R->chance(1, 2) ? "" : "/" + word("ab", 0, 3);
            c.t = R->chance(1, 2) ? 0 : R->below(100000000) + 1;
            if (R->chance(1, 3))
            {
                int v = R->below(1000000);
                c.v = num(v);
                w.setCookie(k, v, c.d, c.p, c.t);
            }
            else
            {
                c.v = word("abc019-_", 0, 10);
                w.setCookie(k, c.v, c.d, c.p, c.t);
            }
            cks[k] = c;
            break;
        }
        default: ;
        }
    }
    for (int i = R->below(5); i > 0; i--)
    {
        S b;
        switch (R->below(6))
        {
        case 0: b = word("abc<>/\r\n ", 1, 30); w << b; break;
        case 1: b = word("xyz ", 1, 10); w << b.c_str(); break;
        case 2: { int v = R->range(-1000, 1000000); b = num(v); w << v; break; }
        case 3: { char v = 'a' + R->below(26); b = S(1, v); w << v; break; }
        case 4: { for (int j = R->below(20); j > 0; j--) b += (char)R->below(256); Exact e(b); w.write(e.p, b.size()); break; }
        default: w << 2.5; b = "2.5";
        }
        body += b;
    }
    S dt = "{\"k\":" + bytes("date") + ",\"v\":[{\"t\":" + when(now_us() / 1000000) + "}]}";
    w.end();
    S o = "{\"e\":\"Resp\",\"b\":" + bytes(S(w.data(), w.size())) + ",\"code\":" + num(code) + ",\"len\":" + num(len) + ",\"body\":" + bytes(body) + ",\"want\":[" + dt;
    o += "," + want("connection", conn) + "," + want("content-type", type);
    if (lm) o += "," + wantt("last-modified", lm);
    if (ex) o += "," + wantt("expires", ex);
    if (cc.size()) o += "," + want("cache-control", cc);
    if (etag.size()) o += "," + want("etag", etag);
    if (loc.size()) o += "," + want("location", loc);
    for (std::map<S, S>::iterator i = heads.begin(); i != heads.end(); ++i)
        o += "," + want(lowered(i->first).c_str(), i->second);
    for (std::map<S, Ck>::iterator i = cks.begin(); i != cks.end(); ++i)
    {
        S a = i->first + "=" + i->second.v;
        if (i->second.d.size()) a += "; Domain=" + i->second.d;
        o += ",{\"k\":" + bytes("set-cookie") + ",\"v\":[";
        if (i->second.t)
            o += piece(a + "; Expires=") + ",{\"t\":" + when(i->second.t + now_us() / 1000000) + "}" + (i->second.p.size() ? "," + piece("; Path=" + i->second.p) : S(""));
        else
            o += piece(a + (i->second.p.size() ? "; Path=" + i->second.p : S("")));
        o += "]}";
    }
    out(o + "],\"same\":" + tf(S(w.getData(), w.getDataLen()) == S(w.data(), w.size())) + "}");
}
// ---------------------------------------------------------------- the rest
static S mix_(int lo, int hi)
{
    S s;
    for (int i = R->range(lo, hi); i > 0; i--)
        s += R->chance(1, 3) ? (char)R->below(256) : "abAZ09 +%-_.~/&="[R->below(16)];
    return s;
}
static void one_util()
{
    static const char *seps[] = {",", "::", "ab", "\r\n", "aab", " "};
    switch (R->below(15))
    {
    case 13:
    {
        if (!g_conc)
            set_now_us((uint64_t)rtime() * 1000000 + R->below(1000000));
        time_t t = now_us() / 1000000;
        S s = lce::GetTimeString();
        uint64_t ms = lce::GetTickCount();
        out("{\"e\":\"Local\",\"t\":" + when(t) + ",\"u\":" + when(now_us() / 1000000) + ",\"b\":" + bytes(s) + ",\"k\":" + when(ms / 1000) + "}");
        break;
    }
    case 14:
    {
        int a = R->chance(1, 4) ? 0 : R->range(-2147483647, 2147483647);
        out("{\"e\":\"Str\",\"a\":" + num(a) + ",\"b\":" + bytes(lce::ToStr(a)) + "}");
        break;
    }
    case 0: { S s = mix_(0, 20); out("{\"e\":\"UrlEnc\",\"s\":" + bytes(s) + ",\"b\":" + bytes(lce::FormUrlEncode(s)) + "}"); break; }
    case 1:
    {
        S s = R->chance(1, 2) ? coded(mix_(0, 20)) : mix_(0, 20);
        if (R->chance(1, 3) && s.size())
            s.resize(R->below(s.size()));
        Exact e(s);
        out("{\"e\":\"UrlDec\",\"s\":" + bytes(s) + ",\"b\":" + bytes(lce::FormUrlDecode(S(e.p, s.size()))) + "}");
        break;
    }
    case 2: case 3: { time_t t = rtime(); out("{\"e\":\"Date\",\"t\":" + when(t) + ",\"b\":" + bytes(lce::GetGMTDate(t)) + "}"); break; }
    case 4: case 5:
    {
        time_t t = rtime();
        S s = lce::GetGMTDate(t);
        if (R->chance(1, 2))
        {
            if (R->chance(1, 2))
                s.resize(R->below(s.size() + 1));
            for (int i = R->below(3); i > 0 && s.size(); i--)
                s[R->below(s.size())] = " -:,JFMASONDabcegilnoprtuvy0192"[R->below(31)];
            if (R->chance(1, 3) && s.find(',') != S::npos)
                s.erase(0, s.find(','));
            if (R->chance(1, 4))
                s = "x Jan " + word("0123456789 -", 0, 6);
        }
        Exact e(s, true);
        out("{\"e\":\"Time\",\"s\":" + bytes(s) + ",\"t\":" + when(t) + ",\"r\":" + when(lce::Gmt2Time(e.p)) + "}");
        break;
    }
    case 6: case 7:
    {
        S p = seps[R->below(6)], s;
        for (int i = R->below(6); i > 0; i--)
            s += R->chance(1, 2) ? p : word("ab:,\r\n ", 0, 3);
        std::vector<S> v;
        lce::SplitStr(s, p, v);
        S o = "{\"e\":\"Split\",\"s\":" + bytes(s) + ",\"p\":" + bytes(p) + ",\"r\":[";
        for (size_t i = 0; i < v.size(); i++)
            o += (i ? "," : "") + bytes(v[i]);
        out(o + "]}");
        break;
    }
    case 8:
    {
        S p = seps[R->below(6)], s, q = R->chance(1, 3) ? "" : R->chance(1, 2) ? p + p : word("ab,:", 0, 4);
        for (int i = R->below(6); i > 0; i--)
            s += R->chance(1, 2) ? p : word("ab:, ", 0, 3);
        S r = s;
        lce::ReplaceStr(r, p, q);
        out("{\"e\":\"Replace\",\"s\":" + bytes(s) + ",\"p\":" + bytes(p) + ",\"q\":" + bytes(q) + ",\"r\":" + bytes(r) + "}");
        break;
    }
    case 9: { S s = word(" \t\r\na", 0, 3) + word("ab \t", 0, 6) + word(" \t\r\n", 0, 3), r = s; lce::TrimStr(r); out("{\"e\":\"Trim\",\"s\":" + bytes(s) + ",\"r\":" + bytes(r) + "}"); break; }
    case 10:
    {
        S s = R->chance(1, 2) ? "127.0.0.1:" + num(R->below(65536)) : word("ab:;1", 0, 8), h = "old", p = "old";
        char c = R->chance(3, 4) ? ':' : ';';
        bool ok = c == ':' && R->chance(1, 2) ? lce::SplitHostPort(s, h, p) : lce::SplitHostPort(s, h, p, c);
        out("{\"e\":\"HostPort\",\"s\":" + bytes(s) + ",\"c\":" + num(c) + ",\"ok\":" + tf(ok) + ",\"h\":" + bytes(h) + ",\"p\":" + bytes(p) + "}");
        break;
    }
    case 11:
    {
        S s = word("ab<>/=", 0, 14), p = word("ab<>", 1, 2), q = word("ab<>", 1, 2), r = "old";
        int f = R->below(R->chance(1, 8) ? 20 : 4);
        size_t pos;
        if (R->chance(1, 2))
        {
            pos = lce::GetMiddleStr((size_t)f, s, r, p, q);
            out("{\"e\":\"Middle\",\"s\":" + bytes(s) + ",\"p\":" + bytes(p) + ",\"q\":" + bytes(q) + ",\"from\":" + num(f) + ",\"pos\":" + num(pos == S::npos ? -1 : (int)pos) + ",\"r\":" + bytes(r) + "}");
        }
        else
        {
            pos = lce::GetMiddleStr((size_t)0, s, r, (size_t)f, q);
            out("{\"e\":\"Middle2\",\"s\":" + bytes(s) + ",\"q\":" + bytes(q) + ",\"from\":" + num(f) + ",\"pos\":" + num(pos == S::npos ? -1 : (int)pos) + ",\"r\":" + bytes(r) + "}");
        }
        break;
    }
    default:
    {
        int a[4];
        for (int i = 0; i < 4; i++)
            a[i] = R->chance(1, 3) ? R->below(2) * 255 : R->below(256);
        uint32_t ip = ((uint32_t)a[0] << 24) | a[1] << 16 | a[2] << 8 | a[3];
        out("{\"e\":\"Ip\",\"a\":[" + num(a[0]) + "," + num(a[1]) + "," + num(a[2]) + "," + num(a[3]) + "],\"r\":" + bytes(lce::InetNtoA(ip)) + "}");
    }
    }
}
struct WArg { Rng r; int kind; };
static void worker(void *p)
{
    WArg &w = *(WArg *)p;
    R = &w.r;
    lce::CHttpReader *rd = new lce::CHttpReader;
    lce::CHttpWriter *wr = new lce::CHttpWriter;
    for (int i = 0; i < 3; i++)
    {
        int k = w.kind == 3 ? R->below(3) : w.kind;
        if (k == 0)
            one_req(*rd, i == 0);
        else if (k == 1)
            one_resp(*wr, i == 0);
        else
            one_util(), one_util(), one_util();
    }
    delete rd;
    delete wr;
}
static void hist(int h, Rng &rng)
{
    R = &rng;
    g_clock_on = true;
    set_now_us(T0_US + (uint64_t)rng.below(400000000) * 1000000);
    out("{\"e\":\"Reset\"}");
    if (g_mode == "conc")
    {
        sched_start(random_opts(rng, true));
        g_conc = true;
        int kind = rng.below(4);
        std::vector<int> ids;
        for (int i = 0; i < 3; i++)
        {
            WArg *w = new WArg;
            w->r = Rng(rng.next());
            w->kind = kind;
            ids.push_back(spawn(worker, w));
        }
        for (;;)
        {
            bool all = true;
            for (size_t i = 0; i < ids.size(); i++)
                all = all && finished(ids[i]);
            if (all)
                break;
            idle();
        }
    }
    else if (g_mode == "req")
    {
        lce::CHttpReader *rd = new lce::CHttpReader;
        for (int i = rng.range(2, 4); i > 0; i--)
            one_req(*rd, false);
        delete rd;
    }
    else if (g_mode == "resp")
    {
        lce::CHttpWriter *w = new lce::CHttpWriter;
        for (int i = 0, n = rng.range(2, 5); i < n; i++)
            one_resp(*w, i == 0);
        delete w;
    }
    else
        for (int i = 0; i < 30; i++)
            one_util();
    out("{\"e\":\"End\"}");
}
int main(int argc, char **argv) { return run_histories(argc, argv, hist); }
