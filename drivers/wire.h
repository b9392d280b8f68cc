// Byte strings of a history, by tag, and the lossless description of observed bytes as runs over them.
#ifndef WIRE_H
#define WIRE_H
#include "vrt.h"
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <string.h>
struct Run
{
    int tag, off, len;
};
struct Pos
{
    int tag, off;
    Pos() : tag(0), off(0) {}
    Pos(int t, int o) : tag(t), off(o) {}
};
static std::deque<std::string> g_wire(1); // tag -> bytes (tag 0 unused)
static int new_tag(const std::string &s)
{
    g_wire.push_back(s);
    return (int)g_wire.size() - 1;
}
// hint: where the bytes are expected to continue; order: the tags that follow it
static std::string runs(const char *p, int n, Pos &hint, const std::vector<int> &order)
{
    std::vector<Run> r;
    int i = 0;
    size_t oi = 0;
    while (oi < order.size() && order[oi] != hint.tag)
        oi++;
    while (i < n)
    {
        // move over the end of a string to the next expected one
        if (hint.tag && hint.off >= (int)g_wire[hint.tag].size())
        {
            size_t k = oi + 1;
            while (k < order.size() && g_wire[order[k]].empty())
                k++;
            if (k < order.size())
                hint = Pos(order[k], 0), oi = k;
        }
        else if (!hint.tag && !order.empty())
            hint = Pos(order[0], 0), oi = 0;
        int best = 0;
        Pos at;
        if (hint.tag && hint.off < (int)g_wire[hint.tag].size())
        {
            const std::string &w = g_wire[hint.tag];
            int m = 0;
            while (i + m < n && hint.off + m < (int)w.size() && w[hint.off + m] == p[i + m])
                m++;
            best = m;
            at = hint;
        }
        if (best < n - i && best < 4 && !(hint.tag && hint.off + best == (int)g_wire[hint.tag].size() && best > 0))
        {
            for (size_t t = 1; t < g_wire.size(); t++)
            {
                const std::string &w = g_wire[t];
                int look = n - i < 8 ? n - i : 8;
                size_t q = look >= 4 ? w.find(std::string(p + i, look)) : std::string::npos;
                if (q == std::string::npos)
                    continue;
                int m = 0;
                while (i + m < n && q + m < w.size() && w[q + m] == p[i + m])
                    m++;
                if (m > best)
                    best = m, at = Pos((int)t, (int)q);
            }
        }
        Run x;
        if (best == 0)
        {
            x.tag = -1;
            x.off = (unsigned char)p[i];
            x.len = 1;
            i++;
        }
        else
        {
            x.tag = at.tag;
            x.off = at.off;
            x.len = best;
            i += best;
            hint = Pos(at.tag, at.off + best);
            oi = 0;
            while (oi < order.size() && order[oi] != hint.tag)
                oi++;
        }
        if (!r.empty() && r.back().tag == x.tag && x.tag > 0 && r.back().off + r.back().len == x.off)
            r.back().len += x.len;
        else
            r.push_back(x);
    }
    std::string s = "[";
    char b[64];
    for (size_t k = 0; k < r.size(); k++)
    {
        snprintf(b, sizeof b, "%s[%d,%d,%d]", k ? "," : "", r[k].tag, r[k].off, r[k].len);
        s += b;
    }
    return s + "]";
}
static std::string noise(vrt::Rng &r, int n)
{
    std::string s(n, 0);
    for (int i = 0; i < n; i++)
        s[i] = (char)r.below(256);
    return s;
}
#endif
