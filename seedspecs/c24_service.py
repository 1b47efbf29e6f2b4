ID = "c24-fixed-service"
PROPERTY = "C24"
NEEDS = "a redundancy group that is not owned by the fan sensor service"
BREAKS = "the members of a group are always asked from one service, so reports about groups of another one are lost"
EDITS = [("dbus/dbuspassiveredundancy.cpp", """                  message.get_sender(), message.get_path(),
""", """                  "xyz.openbmc_project.FanSensor", message.get_path(),
""")]
SRCS = ["dbus/dbuspassiveredundancy.cpp"]
STUBS = True
DEMO = r'''
#include "dbus/dbuspassiveredundancy.hpp"
#include "simbus/simbus.hpp"
#include <sdbusplus/bus.hpp>
#include <cstdio>
using namespace pid_control;
int main()
{
    auto& sim = simbus::Sim::get();
    auto bus = sdbusplus::bus::new_default();
    DbusPassiveRedundancy r(bus);
    int bad = 0;
    const char* I = "xyz.openbmc_project.Control.FanRedundancy";
    for (const char* svc : {"xyz.openbmc_project.FanSensor", "com.example.Cooling"})
    {
        std::string p = std::string("/xyz/openbmc_project/control/") + (svc[0] == 'x' ? "a" : "b"), fan = p + "fan";
        auto& o = sim.services[svc][p][I];
        o["Collection"] = simbus::toVal(std::vector<std::string>{fan});
        std::string F = "xyz.openbmc_project.Control.FanRedundancy.State.";
        o["Status"] = simbus::toVal(F + "Failed");
        sim.emitChanged(svc, p, I, {{"Status", o["Status"]}});
        bad += !r.getFailed().count(fan);
        o["Status"] = simbus::toVal(F + "Full");
        sim.emitChanged(svc, p, I, {{"Status", o["Status"]}});
        bad += r.getFailed().count(fan);
    }
    printf("%d wrong\n", bad);
    return bad;
}
'''
