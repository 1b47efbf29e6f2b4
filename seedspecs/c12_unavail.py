ID = "c12-value-while-unavailable"
PROPERTY = "C12"
NEEDS = "a sensor that becomes unavailable, publishes its next value before its availability (two signals in that order), and then a controller that acts before the value after that"
BREAKS = "values that arrive while the sensor is unavailable are dropped, so the reading stays not a number although a value was received"
EDITS = [("dbus/dbuspassive.cpp", """void DbusPassive::updateValue(double value, bool force)
{
    _badReading = false;
""", """void DbusPassive::updateValue(double value, bool force)
{
    // The value of an unavailable sensor means nothing.
    if (!_available && !force)
    {
        return;
    }

    _badReading = false;
""")]
SRCS = ["dbus/dbuspassive.cpp", "failsafeloggers/failsafe_logger_utility.cpp", "dbus/dbusutil.cpp", "util.cpp", "dbus/dbuspassiveredundancy.cpp", "pid/tuning.cpp"]
STUBS = True
DEMO = r'''
#include "dbus/dbuspassive.hpp"
#include "dbus/dbushelper_interface.hpp"
#include "simbus/simbus.hpp"
#include <sdbusplus/bus.hpp>
#include <cmath>
#include <cstdio>
using namespace pid_control;
struct H : DbusHelperInterface
{
    std::string getService(const std::string&, const std::string&) override { return "s"; }
    void getProperties(const std::string&, const std::string&, SensorProperties* p) override { *p = {}; p->scale = 0; p->value = 40; p->available = true; }
    bool thresholdsAsserted(const std::string&, const std::string&) override { return false; }
};
int main()
{
    auto bus = sdbusplus::bus::new_default();
    conf::SensorConfig c{};
    c.type = "temp"; c.readPath = "/xyz/openbmc_project/sensors/temperature/a"; c.unavailableAsFailed = true;
    auto s = DbusPassive::createDbusPassive(bus, "temp", "a", std::make_unique<H>(), &c, nullptr);
    auto& sim = simbus::Sim::get();
    auto say = [&](const char* i, const char* p, simbus::Val v) { sim.emitChanged(":1.9", c.readPath, i, {{p, v}}); };
    int bad = s->read().value != 40;
    say("xyz.openbmc_project.State.Decorator.Availability", "Available", simbus::toVal(false));
    bad += !std::isnan(s->read().value) + !s->getFailed();
    say("xyz.openbmc_project.Sensor.Value", "Value", simbus::toVal(55.0));
    bad += s->read().value != 55;
    say("xyz.openbmc_project.State.Decorator.Availability", "Available", simbus::toVal(true));
    bad += s->read().value != 55;
    bad += s->getFailed();
    printf("%g, %d wrong\n", s->read().value, bad);
    return bad;
}
'''
