#ifndef DUTIL_H
#define DUTIL_H
#include "vrt.h"
#include <fstream>
#include <sstream>
#include <stdlib.h>
inline std::string script_line(int h)
{
    std::ifstream f(vrt::g_script.c_str());
    std::string s;
    for (int i = 0; i <= h; i++)
        if (!std::getline(f, s))
            vrt::exit_history(3);
    return s;
}
inline std::vector<std::string> words(const std::string &s)
{
    std::istringstream is(s);
    std::vector<std::string> r;
    std::string w;
    while (is >> w)
        r.push_back(w);
    return r;
}
#endif
