from kit import *
ID = "c21-common-file-first"
PROPERTY = "C21"
NEEDS = "both a common set-point file and one for the zone, each with a valid number"
BREAKS = "the zone's own set-point file is read only when the common one gives nothing"
EDITS = [("pid/zone.cpp", """        fileParseRpm(setpointpath, _maximumSetPoint);

        // Allow""", """        if (fileParseRpm(setpointpath, _maximumSetPoint))
        {
            return;
        }

        // Allow""")]
SRCS = ZONE_SRCS
STUBS = True
FILES = {"kit.hpp": KIT, "fs.cpp": r'''
// opens of /etc/thermal.d/ go to the scratch folder
#include <dlfcn.h>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <string>
std::string scratch;
static std::string moved(const char* p) { return !strncmp(p, "/etc/thermal.d/", 15) ? scratch + "/" + (p + 15) : std::string(p); }
extern "C" FILE* fopen64(const char* p, const char* m)
{
    static auto real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
    return real(moved(p).c_str(), m);
}
extern "C" FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }
extern "C" int open(const char* p, int f, ...)
{
    va_list a; va_start(a, f); int mode = va_arg(a, int); va_end(a);
    static auto real = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open");
    return real(moved(p).c_str(), f, mode);
}
extern "C" int open64(const char* p, int f, ...)
{
    va_list a; va_start(a, f); int mode = va_arg(a, int); va_end(a);
    return open(p, f, mode);
}
'''}
LIBS = '"$here"/fs.cpp -ldl'
DEMO = r'''
#include "kit.hpp"
extern std::string scratch;
static void put(const std::string& n, const char* t) { std::ofstream(scratch + "/" + n) << t; }
int main(int, char** argv)
{
    scratch = argv[1];
    tuningEnabled = true;
    Rig r;
    r.sensor("t", "temp"); r.sensor("f", "fan");
    r.pid(3, "a", "temp", {"t"}, 3000);
    r.pid(3, "fan", "fan", {"f"});
    r.zone(3, 1000);
    r.build();
    int bad = 0;
    auto is = [&](double want) { r.thermal(3); double g = r.z[3]->getMaxSetPointRequest(); if (g != want) { bad++; printf("%g instead of %g\n", g, want); } };
    is(3000);
    put("setpoint", "4000"); is(4000);
    put("setpoint.zone3", "5000"); is(5000);
    put("setpoint.zone3", "junk"); is(4000);
    put("setpoint", ""); is(3000);
    put("setpoint.zone3", "6000"); is(6000);
    return bad;
}
'''
