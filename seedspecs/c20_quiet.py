ID = "c20-quiet-controller-unlogged"
PROPERTY = "C20"
NEEDS = "a controller whose terms stay the same for more than a minute"
BREAKS = "every call moves the time of the last row, so a controller in a steady state is not logged once a minute any more"
EDITS = [("pid/ec/logging.cpp", """    if (!shouldLog)
    {
        return;
    }

    pidLog.lastLog = msNow;
""", """    pidLog.lastLog = msNow;

    if (!shouldLog)
    {
        return;
    }

""")]
SRCS = ["pid/ec/logging.cpp", "pid/tuning.cpp"]
DEMO = r'''
#include "pid/ec/logging.hpp"
#include "pid/tuning.hpp"
#include <cstdio>
#include <fstream>
using namespace pid_control::ec;
int main(int, char** argv)
{
    coreLoggingEnabled = true;
    loggingPath = argv[1];
    pid_info_t info{};
    LogInit("x", &info);
    auto* log = LogPeek("x");
    if (!log) return 1;
    PidCoreContext c;
    c.input = 42;
    auto t = LogTimestamp();
    for (int i = 0; i <= 300; i++) LogContext(*log, t + std::chrono::seconds(i), c);
    std::ifstream f(std::string(argv[1]) + "/pidcore.x");
    std::string l;
    int rows = -1;
    while (std::getline(f, l)) rows++;
    printf("%d rows in 300 s\n", rows);
    return rows != 6;
}
'''
