ID = "c16-external-timeout-default"
PROPERTY = "C16"
NEEDS = "an external sensor configured with a timeout of 0, which means that it never times out"
BREAKS = "an external sensor with timeout 0 gets the default timeout"
EDITS = [("sensors/builder.cpp", """                auto sensor = HostSensor::createTemp(
                    name, info->timeout, hostSensorBus, info->readPath.c_str(),
""", """                const int64_t timeout =
                    info->timeout ? info->timeout
                                  : Sensor::getDefaultTimeout(info->type);
                auto sensor = HostSensor::createTemp(
                    name, timeout, hostSensorBus, info->readPath.c_str(),
""")]
SRCS = ["sensors/builder.cpp", "sensors/host.cpp", "sensors/manager.cpp", "sensors/pluggable.cpp", "sensors/build_utils.cpp", "sysfs/sysfsread.cpp", "sysfs/sysfswrite.cpp", "sysfs/util.cpp", "notimpl/readonly.cpp", "notimpl/writeonly.cpp", "dbus/dbuspassive.cpp", "failsafeloggers/failsafe_logger_utility.cpp", "dbus/dbushelper.cpp", "dbus/dbusutil.cpp", "dbus/dbuswrite.cpp", "dbus/dbuspassiveredundancy.cpp", "util.cpp", "pid/tuning.cpp"]
STUBS = True
DEMO = r'''
#include "sensors/builder.hpp"
#include "sensors/manager.hpp"
#include "sensors/sensor.hpp"
#include <sdbusplus/bus.hpp>
#include <cstdio>
using namespace pid_control;
int main()
{
    auto bus = sdbusplus::bus::new_default(), host = sdbusplus::bus::new_default();
    std::map<std::string, conf::SensorConfig> c;
    int i = 0;
    for (int t : {0, 1, 7})
    {
        auto& s = c["s" + std::to_string(i++)];
        s = {}; s.type = "temp"; s.timeout = t;
        s.readPath = "/xyz/openbmc_project/extsensors/temperature/s" + std::to_string(i);
    }
    auto m = buildSensors(c, bus, host);
    int bad = 0;
    for (auto& [n, s] : c) bad += m.getSensor(n)->getTimeout() != s.timeout;
    printf("%d wrong\n", bad);
    return bad;
}
'''
