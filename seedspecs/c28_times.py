ID = "c28-unchanged-times"
PROPERTY = "C28"
NEEDS = "a file whose content changes without its modification time, as all files of sysfs do"
BREAKS = "a file is read again only when its modification time moved, so the sensor repeats its first reading, stamped as fresh"
EDITS = [("sysfs/sysfsread.cpp", """    ifs.open(_path);
""", """    // No need to parse again what has not changed.
    struct Parsed
    {
        std::filesystem::file_time_type when;
        double value;
    };
    static std::map<std::string, Parsed> parsed;

    std::error_code ec;
    auto when = std::filesystem::last_write_time(_path, ec);
    if (auto p = parsed.find(_path);
        !ec && p != parsed.end() && p->second.when == when)
    {
        _updated = std::chrono::high_resolution_clock::now();
        return {p->second.value, _updated};
    }

    ifs.open(_path);
"""), ("sysfs/sysfsread.cpp", """    ifs.close();
""", """    ifs.close();
    if (!ec)
    {
        parsed[_path] = {when, static_cast<double>(value)};
    }
"""), ("sysfs/sysfsread.cpp", "#include <fstream>\n", "#include <filesystem>\n#include <fstream>\n"), ("sysfs/sysfsread.cpp", "#include <limits>\n", "#include <limits>\n#include <map>\n#include <string>\n#include <system_error>\n")]
SRCS = ["sysfs/util.cpp", "sysfs/sysfsread.cpp"]
DEMO = r'''
#include "sysfs/sysfsread.hpp"
#include <cstdio>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <sys/stat.h>
using namespace pid_control;
namespace fs = std::filesystem;
int main(int, char** argv)
{
    fs::path d = fs::path(argv[1]) / "hwmon";
    fs::create_directories(d);
    std::string f = d / "temp1_input";
    auto put = [&](int v) {
        std::ofstream(f) << v;
        struct timespec t[2] = {{1700000000, 0}, {1700000000, 0}};
        utimensat(AT_FDCWD, f.c_str(), t, 0);
    };
    SysFsRead s(f);
    int bad = 0;
    for (int v : {40000, 41000, 95000})
    {
        put(v);
        bad += s.read().value != v;
    }
    printf("%d wrong\n", bad);
    return bad;
}
'''
