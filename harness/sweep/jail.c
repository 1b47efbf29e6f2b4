// Preloaded into the shell: absolute files it writes, and the daemon's files,
// are under $VP_JAIL instead.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static const char* place(const char* p, int writes, char* buf, size_t n)
{
    const char* j = getenv("VP_JAIL");
    if (!j || !p || p[0] != '/' || !strncmp(p, j, strlen(j))) return p;
    if (!strncmp(p, "/dev/", 5) || !strncmp(p, "/proc/", 6)) return p;
    if (!writes && strncmp(p, "/etc/thermal.d", 14) && strncmp(p, "/tmp/swampd", 11)) return p;
    snprintf(buf, n, "%s%s", j, p);
    return buf;
}
#define OPEN(name)                                                                     \
    int name(const char* p, int flags, ...)                                            \
    {                                                                                  \
        va_list a;                                                                     \
        va_start(a, flags);                                                            \
        int mode = va_arg(a, int);                                                     \
        va_end(a);                                                                     \
        char buf[4200];                                                                \
        int (*real)(const char*, int, ...) = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, #name); \
        return real(place(p, (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT), buf, sizeof buf), flags, mode); \
    }
OPEN(open)
OPEN(open64)
#define OPENAT(name)                                                                   \
    int name(int d, const char* p, int flags, ...)                                     \
    {                                                                                  \
        va_list a;                                                                     \
        va_start(a, flags);                                                            \
        int mode = va_arg(a, int);                                                     \
        va_end(a);                                                                     \
        char buf[4200];                                                                \
        int (*real)(int, const char*, int, ...) = (int (*)(int, const char*, int, ...))dlsym(RTLD_NEXT, #name); \
        return real(d, place(p, (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT), buf, sizeof buf), flags, mode); \
    }
OPENAT(openat)
OPENAT(openat64)
#define CREAT(name)                                                                    \
    int name(const char* p, mode_t mode)                                               \
    {                                                                                  \
        char buf[4200];                                                                \
        int (*real)(const char*, mode_t) = (int (*)(const char*, mode_t))dlsym(RTLD_NEXT, #name); \
        return real(place(p, 1, buf, sizeof buf), mode);                               \
    }
CREAT(creat)
CREAT(creat64)
#define FOPEN(name)                                                                    \
    FILE* name(const char* p, const char* m)                                           \
    {                                                                                  \
        char buf[4200];                                                                \
        FILE* (*real)(const char*, const char*) = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, #name); \
        return real(place(p, strpbrk(m, "wa+") != NULL, buf, sizeof buf), m);          \
    }
FOPEN(fopen)
FOPEN(fopen64)
