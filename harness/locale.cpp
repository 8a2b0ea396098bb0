// Driver of locale_charset(): one platform per executable.  Reads "L all ctype lang set info" (hex, '-' = unset) and
// "W first last" (code pages) and writes what the C and the C++ function answer.
#include <clocale>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <langinfo.h>
#include <cppp/reiconv.h>
#include <cppp/reiconv.hpp>

static std::string g_info;
static unsigned g_acp, g_ocp;
extern "C" unsigned GetACP(void) { return g_acp; }
extern "C" unsigned GetConsoleOutputCP(void) { return g_ocp; }
extern "C" char *__wrap_nl_langinfo(nl_item it)
{
    return const_cast<char *>(it == CODESET ? g_info.c_str() : "?item");
}

static std::string unhex(const std::string &s)
{
    std::string r;
    for (size_t k = 0; k + 1 < s.size(); k += 2)
        r += char(std::stoi(s.substr(k, 2), nullptr, 16));
    return r;
}
static std::string bytes(const std::string &s)
{
    std::string r = "[";
    for (size_t k = 0; k < s.size(); k++)
        r += (k ? "," : "") + std::to_string((unsigned char)s[k]);
    return r + "]";
}
static std::string ask_c()
{
    const char *p = ::locale_charset();
    return p ? std::string(p) : std::string("\1NULL");
}
static std::string ask_p()
{
    return std::string(reiconv::locale_charset());
}
static void put(const char *n, const std::string &v)
{
    if (v == "-")
        unsetenv(n);
    else
        setenv(n, unhex(v.substr(1)).c_str(), 1);
}

int main()
{
    std::string l;
    while (std::getline(std::cin, l))
    {
        std::istringstream is(l);
        std::string op;
        is >> op;
        if (op == "L")
        {
            std::string a, c, g, s, i;
            is >> a >> c >> g >> s >> i;
            put("LC_ALL", a), put("LC_CTYPE", c), put("LANG", g);
            setlocale(LC_CTYPE, s == "u" ? "C.utf8" : "C");
            g_info = unhex(i.substr(1));
            const char *cur = setlocale(LC_CTYPE, nullptr);
            auto raw = [](const std::string &v) { return v == "-" ? std::string() : unhex(v.substr(1)); };
            std::string x = ask_c(), y = ask_p();
            std::printf("{\"op\":\"loc\",\"all\":%s,\"ctype\":%s,\"lang\":%s,\"set\":%s,\"info\":%s,\"c\":%s,\"p\":%s}\n", bytes(raw(a)).c_str(),
                        bytes(raw(c)).c_str(), bytes(raw(g)).c_str(), bytes(cur ? cur : "").c_str(), bytes(g_info).c_str(), bytes(x).c_str(),
                        bytes(y).c_str());
        }
        else if (op == "W")
        {
            unsigned long lo, hi;
            is >> lo >> hi;
            std::string rows;
            int diff = 0;
            for (unsigned long k = lo; k <= hi; k++)
            {
                unsigned v = unsigned(k);
                // the page that is not to be asked for is one whose name differs
#ifdef _CONSOLE
                g_ocp = v, g_acp = v == 1251 ? 1250 : 1251;
#else
                g_acp = v, g_ocp = v == 1251 ? 1250 : 1251;
#endif
                std::string x = ask_c();
                diff += x != ask_p();
                if (x != "ASCII")
                    rows += (rows.empty() ? "[" : ",[") + std::to_string(k > 0x7fffffff ? -1 : long(k)) + "," + bytes(x) + "]";
            }
            std::printf("{\"op\":\"win\",\"lo\":%ld,\"hi\":%ld,\"diff\":%d,\"rows\":[%s]}\n", long(int(lo)), long(int(hi)), diff, rows.c_str());
        }
        std::fflush(stdout);
    }
}
