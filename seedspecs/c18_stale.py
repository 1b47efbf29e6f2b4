ID = "c18-stale-reply"
PROPERTY = "C18"
NEEDS = "a second request after the mode of the zone changed, or for another zone in another state"
BREAKS = "the property map of the first reply is kept and later replies cannot overwrite its entries, so every later request returns the first answer"
EDITS = [("ipmi/dbus_mode.cpp", "        PropertyMap propMap;\n", "        static PropertyMap propMap;\n")]
SRCS = ["ipmi/dbus_mode.cpp", "ipmi/manualcmds.cpp"]
STUBS = True
DEMO = r'''
#include "ipmi/dbus_mode.hpp"
#include "ipmi/manualcmds.hpp"
#include "simbus/simbus.hpp"
#include <cstdio>
#include <memory>
using namespace pid_control::ipmi;
int main()
{
    auto& sim = simbus::Sim::get();
    ZoneControlIpmiHandler h(std::make_unique<DbusZoneControl>());
    const char* svc = "xyz.openbmc_project.State.FanCtrl";
    auto path = [](int z) { return "/xyz/openbmc_project/settings/fanctrl/zone" + std::to_string(z); };
    auto state = [&](int z, bool manual, bool fs) {
        sim.services[svc][path(z)]["xyz.openbmc_project.Control.Mode"] = {{"Manual", simbus::toVal(manual)}, {"FailSafe", simbus::toVal(fs)}};
    };
    int bad = 0;
    auto ask = [&](int cmd, int z, bool want) {
        uint8_t req[2] = {uint8_t(cmd), uint8_t(z)}, rep[8] = {9};
        size_t n = 2;
        auto cc = manualModeControl(&h, 4, req, rep, &n);
        bad += cc != 0 || n != 1 || rep[0] != want;
    };
    for (int round = 0; round < 4; round++)
    {
        bool a = round & 1, b = round & 2;
        state(1, a, b); state(2, !a, !b);
        ask(0, 1, a); ask(2, 1, b); ask(0, 2, !a); ask(2, 2, !b);
    }
    printf("%d wrong\n", bad);
    return bad;
}
'''
