from kit import *
ID = "c27-output-of-enabled-only"
PROPERTY = "C27"
NEEDS = "a controller that is disabled over the bus while it keeps running"
BREAKS = "the output shown for a disabled controller is the one from before it was disabled"
EDITS = [("pid/zone.cpp", """    if (leader.empty())
    {
        _pidsControlProcess[pidName]->output(output);
    }
""", """    if (leader.empty())
    {
        if (isPidProcessEnabled(pidName))
        {
            _pidsControlProcess[pidName]->output(output);
        }
    }
""")]
SRCS = ZONE_SRCS
STUBS = True
FILES = {"kit.hpp": KIT}
DEMO = r'''
#include "kit.hpp"
int main()
{
    Rig r;
    auto& t = r.sensor("t", "temp");
    r.sensor("f", "fan");
    auto& c = r.pid(1, "a", "temp", {"t"}, 3000);
    c.pidInfo.proportionalCoeff = -1;
    r.pid(1, "fan", "fan", {"f"});
    r.zone(1, 1000);
    r.build();
    auto& sim = simbus::Sim::get();
    auto shown = [&] {
        for (auto& [path, iface] : sim.ownObjects())
        {
            simbus::Val v;
            if (path.ends_with("/a") && sim.ownGet(path, iface, "Output", v)) return v.num();
        }
        return -1.0;
    };
    t.v = 100;
    r.thermal(1);
    double a = shown();
    for (auto& [path, iface] : sim.ownObjects())
        if (path.ends_with("/a") && iface.find("Enable") != std::string::npos)
        {
            std::string err;
            sim.ownSet(path, iface, "Enabled", simbus::toVal(false), &err);
        }
    t.v = 200;
    r.thermal(1);
    double b = shown();
    printf("%g %g\n", a, b);
    return a != 100 || b != 200;
}
'''
