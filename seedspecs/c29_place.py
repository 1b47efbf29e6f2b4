ID = "c29-place-remembered"
PROPERTY = "C29"
NEEDS = "no named configuration; a file found in a later place at start, another one put into an earlier place afterwards, and a reload"
BREAKS = "the place where the configuration was first found is kept as if it had been named, so a reload does not search again"
EDITS = [("main.cpp", """    const std::filesystem::path path =
        (!configPath.empty()) ? configPath : searchConfigurationPath();
""", """    if (configPath.empty())
    {
        configPath = searchConfigurationPath();
    }
    const std::filesystem::path path = configPath;
""")]
SRCS = """util.cpp notimpl/readonly.cpp notimpl/writeonly.cpp dbus/dbusconfiguration.cpp dbus/dbusutil.cpp dbus/dbushelper.cpp
dbus/dbuspassiveredundancy.cpp dbus/dbuspassive.cpp dbus/dbuswrite.cpp failsafeloggers/builder.cpp failsafeloggers/failsafe_logger_utility.cpp
sysfs/sysfsread.cpp sysfs/sysfswrite.cpp sysfs/util.cpp sensors/pluggable.cpp sensors/host.cpp sensors/builder.cpp sensors/buildjson.cpp
sensors/manager.cpp sensors/build_utils.cpp pid/ec/pid.cpp pid/ec/logging.cpp pid/ec/stepwise.cpp pid/fancontroller.cpp pid/thermalcontroller.cpp
pid/pidcontroller.cpp pid/stepwisecontroller.cpp pid/builder.cpp pid/buildjson.cpp pid/zone.cpp pid/util.cpp pid/pidloop.cpp pid/tuning.cpp
buildjson/buildjson.cpp""".split()
STUBS = True
DEFS = "-O0"
LIBS = '"$here"/fs.cpp -ldl -lpthread'
FILES = {"fs.cpp": r'''
// the places that are searched are in the scratch folder
#include <dlfcn.h>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <string>
#include <sys/stat.h>
std::string scratch;
static std::string moved(const char* p)
{
    if (!strncmp(p, "/etc/thermal.d", 14)) return scratch + "/etc" + (p + 14);
    if (!strncmp(p, "/var/lib/swampd", 15)) return scratch + "/var" + (p + 15);
    if (!strncmp(p, "/usr/share/swampd", 17)) return scratch + "/usr" + (p + 17);
    return p;
}
extern "C" int stat(const char* p, struct stat* s)
{
    static auto real = (int (*)(const char*, struct stat*))dlsym(RTLD_NEXT, "stat");
    return real(moved(p).c_str(), s);
}
extern "C" FILE* fopen64(const char* p, const char* m)
{
    static auto real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
    return real(moved(p).c_str(), m);
}
extern "C" FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }
extern "C" int open64(const char* p, int f, ...)
{
    va_list a; va_start(a, f); int mode = va_arg(a, int); va_end(a);
    static auto real = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open64");
    return real(moved(p).c_str(), f, mode);
}
extern "C" int open(const char* p, int f, ...)
{
    va_list a; va_start(a, f); int mode = va_arg(a, int); va_end(a);
    return open64(p, f, mode);
}
'''}
DEMO = r'''
#define main swampd_main
#include "/repo/main.cpp"
#undef main
#include <fstream>
#include <thread>
extern std::string scratch;
static std::string config(const std::string& d, int zone)
{
    std::string z = std::to_string(zone);
    std::ofstream(d + "/sys/t" + z) << "40\n";
    std::ofstream(d + "/sys/f" + z) << "3000\n";
    std::ofstream(d + "/sys/p" + z) << "0\n";
    return R"({"sensors":[{"name":"t)" + z + R"(","type":"temp","readPath":")" + d + "/sys/t" + z + R"("},
      {"name":"f)" + z + R"(","type":"fan","readPath":")" + d + "/sys/f" + z + R"(","writePath":")" + d + "/sys/p" + z + R"(","min":0,"max":255}],
     "zones":[{"id":)" + z + R"(,"minThermalOutput":3000,"failsafePercent":75,"pids":[
      {"name":"a)" + z + R"(","type":"temp","inputs":["t)" + z + R"("],"setpoint":30,"pid":{"samplePeriod":0.1,"proportionalCoeff":0,"integralCoeff":0,"feedFwdOffsetCoeff":0,"feedFwdGainCoeff":1,"integralLimit_min":0,"integralLimit_max":0,"outLim_min":0,"outLim_max":5000,"slewNeg":0,"slewPos":0}},
      {"name":"b)" + z + R"(","type":"fan","inputs":["f)" + z + R"("],"setpoint":30,"pid":{"samplePeriod":0.1,"proportionalCoeff":0,"integralCoeff":0,"feedFwdOffsetCoeff":0,"feedFwdGainCoeff":0.01,"integralLimit_min":0,"integralLimit_max":0,"outLim_min":0,"outLim_max":100,"slewNeg":0,"slewPos":0}}]}]})";
}
static int load()
{
    for (int k = 0; k < 20; k++)
    {
        try { pid_control::restartControlLoops(); break; }
        catch (const std::exception& e) { io.restart(); io.poll(); } // the old loops still end
    }
    return pid_control::state::zones.size() == 1 ? int(pid_control::state::zones.begin()->first) : -1;
}
int main(int, char** argv)
{
    scratch = argv[1];
    for (auto n : {"etc", "var", "usr", "cwd", "sys"}) std::filesystem::create_directory(scratch + "/" + n);
    if (chdir((scratch + "/cwd").c_str())) return 2;
    auto put = [&](const char* at, int zone) { std::ofstream(scratch + "/" + at + "/config.json") << config(scratch, zone); };
    int bad = 0;
    auto expect = [&](int zone) { int z = load(); if (z != zone) { bad++; printf("zone %d instead of %d\n", z, zone); } };
    put("usr", 1); expect(1);
    put("usr", 2); expect(2);
    put("var", 3); expect(3);
    put("cwd", 4); expect(4);
    std::filesystem::remove(scratch + "/cwd/config.json"); expect(3);
    printf("%d wrong\n", bad);
    fflush(stdout);
    _exit(bad ? 1 : 0);
}
'''
