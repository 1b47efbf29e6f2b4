ID = "c28-wildcard-remembered"
PROPERTY = "C28"
NEEDS = "a sensor that is set up again (a reload) after the folder behind its wildcard changed its name"
BREAKS = "a wildcard path is resolved once per process, so after a reload a sensor looks at a folder that is gone"
EDITS = [("sysfs/util.cpp", """    std::string::size_type n;

    /* TODO""", """    std::string::size_type n;
    static std::map<std::string, std::string> known;

    if (auto k = known.find(original); k != known.end())
    {
        return k->second;
    }

    /* TODO"""), ("sysfs/util.cpp", "        return fldr + f;\n", "        return known[original] = fldr + f;\n"), ("sysfs/util.cpp", "#include <filesystem>\n", "#include <filesystem>\n#include <map>\n")]
SRCS = ["sysfs/util.cpp", "sysfs/sysfsread.cpp"]
DEMO = r'''
#include "sysfs/sysfsread.hpp"
#include <cstdio>
#include <filesystem>
#include <fstream>
using namespace pid_control;
namespace fs = std::filesystem;
int main(int, char** argv)
{
    fs::path d = fs::path(argv[1]) / "hwmon";
    auto put = [&](const char* n, int v) { fs::create_directories(d / n); std::ofstream(d / n / "temp1_input") << v; };
    put("hwmon1", 40000);
    int bad = SysFsRead(d.string() + "/**/temp1_input").read().value != 40000;
    fs::remove_all(d / "hwmon1");
    put("hwmon4", 50000);
    bad += SysFsRead(d.string() + "/**/temp1_input").read().value != 50000;
    printf("%d wrong\n", bad);
    return bad;
}
'''
