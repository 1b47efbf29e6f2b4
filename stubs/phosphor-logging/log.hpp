#pragma once
#include <cstdarg>
#include <cstdio>
#include <string>
namespace phosphor::logging
{
enum class level { EMERG = 0, ALERT, CRIT, ERR, WARNING, NOTICE, INFO, DEBUG };
template <typename... A> std::string entry(const char* fmt, A... a)
{
    char b[512];
    if constexpr (sizeof...(A) == 0) return fmt;
    else
    {
        snprintf(b, sizeof b, fmt, a...);
        return b;
    }
}
template <level L, typename... E> void log(const char* msg, const E&... e)
{
    std::string s = msg;
    ((s += " " + std::string(e)), ...);
    fprintf(stderr, "log<%d> %s\n", int(L), s.c_str());
}
} // namespace phosphor::logging
