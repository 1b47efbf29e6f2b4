// Redirects absolute paths the program has built in (/etc/thermal.d and so on)
// into a case's scratch directory and refuses writes outside it.
#include "vp.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/stat.h>
#include <unistd.h>

namespace vp::fsjail
{
static std::vector<std::pair<std::string, std::string>>& maps()
{
    static auto* m = new std::vector<std::pair<std::string, std::string>>;
    return *m;
}
static std::vector<std::string>& ref()
{
    static auto* m = new std::vector<std::string>;
    return *m;
}
static bool active = false, confined = false;
static char root[512];
void map(const std::string& from, const std::string& to)
{
    maps().emplace_back(from, to);
    active = true;
}
void confine(const std::string& r)
{
    snprintf(root, sizeof root, "%s", r.c_str());
    confined = true;
}
void clear()
{
    active = confined = false;
    maps().clear();
    ref().clear();
}
const std::vector<std::string>& refused() { return ref(); }
void (*onOpen)(const char*, bool) = nullptr;

static const char* redirect(const char* p, std::string& buf)
{
    if (!active || !p || p[0] != '/') return p;
    for (auto& [f, t] : maps())
        if (!strncmp(p, f.c_str(), f.size()) && (p[f.size()] == 0 || p[f.size()] == '/'))
        {
            buf = t + (p + f.size());
            return buf.c_str();
        }
    return p;
}
static bool deny(const char* p)
{
    if (!confined || !p) return false;
    std::string abs = p;
    if (p[0] != '/')
    {
        char b[4096];
        if (getcwd(b, sizeof b)) abs = std::string(b) + "/" + p;
    }
    if (!strncmp(abs.c_str(), root, strlen(root)) || !strncmp(abs.c_str(), "/dev/", 5))
        return false;
    ref().push_back(abs);
    errno = EACCES;
    return true;
}
} // namespace vp::fsjail

using vp::fsjail::deny;
using vp::fsjail::redirect;
#define REAL(name) static auto real = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))

extern "C"
{
FILE* fopen(const char* p, const char* m)
{
    REAL(fopen);
    std::string b;
    const char* q = redirect(p, b);
    if (strpbrk(m, "wa+") && deny(q)) return nullptr;
    if (vp::fsjail::onOpen) vp::fsjail::onOpen(q, strpbrk(m, "wa+") != nullptr);
    return real(q, m);
}
FILE* fopen64(const char* p, const char* m)
{
    REAL(fopen64);
    std::string b;
    const char* q = redirect(p, b);
    if (strpbrk(m, "wa+") && deny(q)) return nullptr;
    if (vp::fsjail::onOpen) vp::fsjail::onOpen(q, strpbrk(m, "wa+") != nullptr);
    return real(q, m);
}
static bool wr(int f) { return (f & O_ACCMODE) != O_RDONLY || (f & O_CREAT); }
int open(const char* p, int f, ...)
{
    REAL(open);
    va_list a;
    va_start(a, f);
    mode_t mode = (f & (O_CREAT | O_TMPFILE)) ? mode_t(va_arg(a, int)) : 0;
    va_end(a);
    std::string b;
    const char* q = redirect(p, b);
    if (wr(f) && deny(q)) return -1;
    if (vp::fsjail::onOpen) vp::fsjail::onOpen(q, wr(f));
    return real(q, f, mode);
}
int open64(const char* p, int f, ...)
{
    REAL(open64);
    va_list a;
    va_start(a, f);
    mode_t mode = (f & (O_CREAT | O_TMPFILE)) ? mode_t(va_arg(a, int)) : 0;
    va_end(a);
    std::string b;
    const char* q = redirect(p, b);
    if (wr(f) && deny(q)) return -1;
    if (vp::fsjail::onOpen) vp::fsjail::onOpen(q, wr(f));
    return real(q, f, mode);
}
int stat(const char* p, struct stat* s)
{
    REAL(stat);
    std::string b;
    return real(redirect(p, b), s);
}
int lstat(const char* p, struct stat* s)
{
    REAL(lstat);
    std::string b;
    return real(redirect(p, b), s);
}
int access(const char* p, int m)
{
    REAL(access);
    std::string b;
    return real(redirect(p, b), m);
}
int mkdir(const char* p, mode_t m)
{
    REAL(mkdir);
    std::string b;
    const char* q = redirect(p, b);
    if (deny(q)) return -1;
    return real(q, m);
}
int rename(const char* x, const char* y)
{
    REAL(rename);
    if (deny(x) || deny(y)) return -1;
    return real(x, y);
}
int unlink(const char* p)
{
    REAL(unlink);
    if (deny(p)) return -1;
    return real(p);
}
int remove(const char* p)
{
    REAL(remove);
    if (deny(p)) return -1;
    return real(p);
}
} // extern "C"
