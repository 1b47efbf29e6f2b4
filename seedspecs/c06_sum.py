from kit import *
ID = "c06-disabled-share"
PROPERTY = "C06"
NEEDS = "accumulation on, two controllers of one profile, one of them disabled over the bus"
BREAKS = "the request of a disabled controller is still added to its profile's sum"
EDITS = [("pid/zone.cpp", """    /* exclude disabled pidloop from _maximumSetPoint calculation*/
    if (!isPidProcessEnabled(name))
    {
        return;
    }

    auto profileName = name;
""", """    auto profileName = name;
    const bool enabled = isPidProcessEnabled(name);
"""), ("pid/zone.cpp", """        setPoints[profileName] += setPoint;
""", """        setPoints[profileName] += setPoint;

        /* exclude disabled pidloop from _maximumSetPoint calculation*/
        if (!enabled)
        {
            return;
        }
"""), ("pid/zone.cpp", """    else
    {
        if (setPoints[profileName] < setPoint)
""", """    else
    {
        if (!enabled)
        {
            return;
        }

        if (setPoints[profileName] < setPoint)
""")]
SRCS = ZONE_SRCS
STUBS = True
FILES = {"kit.hpp": KIT}
DEMO = r'''
#include "kit.hpp"
int main()
{
    Rig r;
    r.sensor("t", "temp"); r.sensor("f", "fan");
    r.pid(1, "a_X", "temp", {"t"}, 3000);
    r.pid(1, "b_X", "temp", {"t"}, 4000);
    r.pid(1, "fan", "fan", {"f"});
    r.zone(1, 1000).accumulateSetPoint = true;
    r.build();
    r.thermal(1);
    double both = r.z[1]->getMaxSetPointRequest();
    for (auto& [path, iface] : simbus::Sim::get().ownObjects())
        if (path.find("a_X") != std::string::npos && iface.find("Enable") != std::string::npos)
        {
            std::string err;
            simbus::Sim::get().ownSet(path, iface, "Enabled", simbus::toVal(false), &err);
        }
    r.thermal(1);
    double one = r.z[1]->getMaxSetPointRequest();
    printf("%g %g\n", both, one);
    return both != 7000 || one != 4000;
}
'''
