ID = "c26-stamp-before-lock"
PROPERTY = "C26"
NEEDS = "a thread that samples an external sensor while another writes it"
BREAKS = "the time of an external sensor's reading is set before its lock is taken, so a sample may pair a new time with an old value"
EDITS = [("sensors/host.cpp", """    std::lock_guard<std::mutex> guard(_lock);

    _updated = std::chrono::high_resolution_clock::now();
    _value = value""", """    _updated = std::chrono::high_resolution_clock::now();

    std::lock_guard<std::mutex> guard(_lock);
    _value = value""")]
SRCS = ["sensors/host.cpp", "failsafeloggers/failsafe_logger.cpp", "failsafeloggers/failsafe_logger_utility.cpp", "pid/tuning.cpp"]
STUBS = True
DEMO = r'''
#include "sensors/host.hpp"
#include <sdbusplus/bus.hpp>
#include <atomic>
#include <cstdio>
#include <thread>
using namespace pid_control;
int main()
{
    auto bus = sdbusplus::bus::new_default();
    auto s = HostSensor::createTemp("a", 2, bus, "/xyz/openbmc_project/extsensors/temperature/a", true, false);
    auto* h = dynamic_cast<HostSensor*>(s.get());
    std::atomic<bool> stop{false};
    long torn = 0, seen = 0;
    std::thread r([&] {
        auto last = s->read();
        while (!stop)
        {
            auto now = s->read();
            // every write has another value, so one value has one time
            torn += now.value == last.value && now.updated != last.updated;
            seen += now.value != last.value;
            last = now;
        }
    });
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(4);
    for (double i = 1; std::chrono::steady_clock::now() < end; i++) h->value(i);
    stop = true;
    r.join();
    printf("%ld torn, %ld seen\n", torn, seen);
    return torn != 0;
}
'''
