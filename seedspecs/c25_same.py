ID = "c25-same-value-skipped"
PROPERTY = "C25"
NEEDS = "a host that keeps writing the same value"
BREAKS = "a write that does not change the value does not refresh its time, so a steady host is taken for a silent one"
EDITS = [("sensors/host.cpp", """    std::lock_guard<std::mutex> guard(_lock);

    _updated = std::chrono::high_resolution_clock::now();
    _value = value * pow(10, 0); /* scale value */
""", """    std::lock_guard<std::mutex> guard(_lock);

    if (_value == value * pow(10, 0))
    {
        return value;
    }

    _updated = std::chrono::high_resolution_clock::now();
    _value = value * pow(10, 0); /* scale value */
""")]
SRCS = ["sensors/host.cpp", "failsafeloggers/failsafe_logger.cpp", "failsafeloggers/failsafe_logger_utility.cpp", "pid/tuning.cpp"]
STUBS = True
DEMO = r'''
#include "sensors/host.hpp"
#include <sdbusplus/bus.hpp>
#include <thread>
#include <cstdio>
using namespace pid_control;
int main()
{
    auto bus = sdbusplus::bus::new_default();
    auto s = HostSensor::createTemp("a", 2, bus, "/xyz/openbmc_project/extsensors/temperature/a", true);
    auto* h = dynamic_cast<HostSensor*>(s.get());
    h->value(42);
    auto t0 = s->read().updated;
    std::this_thread::sleep_for(std::chrono::milliseconds(20));
    h->value(42);
    auto r = s->read();
    auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(r.updated - t0).count();
    printf("%g, %ld ms later\n", r.value, long(ms));
    return r.value != 42 || ms < 15;
}
'''
