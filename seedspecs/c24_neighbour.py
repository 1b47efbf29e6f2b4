ID = "c24-neighbour"
PROPERTY = "C24"
NEEDS = "a fan in a failed group whose path continues that of a fan outside every group (fan1 and fan10)"
BREAKS = "the lookup takes the beginning of a path for the path, so the failure of fan10's group also fails fan1"
EDITS = [("dbus/dbuspassive.cpp", """        if (failures.find(path) != failures.end())
""", """        // A rotor is listed below its fan as well: fan1 and fan1/rotor0.
        auto at = failures.lower_bound(path);
        if (at != failures.end() && at->starts_with(path))
""")]
SRCS = ["dbus/dbuspassive.cpp", "failsafeloggers/failsafe_logger_utility.cpp", "dbus/dbusutil.cpp", "util.cpp", "dbus/dbuspassiveredundancy.cpp", "pid/tuning.cpp"]
STUBS = True
DEMO = r'''
#include "dbus/dbuspassive.hpp"
#include "dbus/dbushelper_interface.hpp"
#include "dbus/dbuspassiveredundancy.hpp"
#include "simbus/simbus.hpp"
#include <sdbusplus/bus.hpp>
#include <cstdio>
using namespace pid_control;
struct H : DbusHelperInterface
{
    std::string getService(const std::string&, const std::string&) override { return "s"; }
    void getProperties(const std::string&, const std::string&, SensorProperties* p) override { *p = {}; p->scale = 0; p->value = 4000; p->available = true; }
    bool thresholdsAsserted(const std::string&, const std::string&) override { return false; }
};
int main()
{
    auto& sim = simbus::Sim::get();
    auto bus = sdbusplus::bus::new_default();
    const std::string I = "xyz.openbmc_project.Control.FanRedundancy", P = "/xyz/openbmc_project/control/r", base = "/xyz/openbmc_project/sensors/fan_tach/";
    auto& o = sim.services["r.s"][P][I];
    o["Collection"] = simbus::toVal(std::vector<std::string>{base + "fan10", base + "fan2"});
    o["Status"] = simbus::toVal(I + ".State.Failed");
    auto red = std::make_shared<DbusPassiveRedundancy>(bus);
    auto failed = [&](const std::string& n) {
        conf::SensorConfig c{};
        c.type = "fan"; c.readPath = base + n; c.unavailableAsFailed = true;
        return DbusPassive::createDbusPassive(bus, "fan", n, std::make_unique<H>(), &c, red)->getFailed();
    };
    auto look = [&](bool f) { return (failed("fan1") != false) + (failed("fan10") != f) + (failed("fan2") != f) + (failed("fan") != false); };
    sim.emitChanged("r.s", P, I, {{"Status", o["Status"]}});
    int bad = look(true);
    o["Status"] = simbus::toVal(I + ".State.Full");
    sim.emitChanged("r.s", P, I, {{"Status", o["Status"]}});
    bad += look(false);
    printf("%d wrong\n", bad);
    return bad;
}
'''
