from kit import *
ID = "c09-first-controller-only"
PROPERTY = "C09"
NEEDS = "a zone with two fan controllers returning from manual mode with unchanged values"
BREAKS = "only the first fan controller's fans are rewritten after manual mode; the others keep what was set by hand"
EDITS = [("pid/zone.cpp", """    for (auto& p : _fans)
    {
        p->process();
    }

    if (_redundantWrite)
    {
        // This is only needed once
        _redundantWrite = false;
    }
""", """    for (auto& p : _fans)
    {
        p->process();

        // This is only needed once
        _redundantWrite = false;
    }
""")]
SRCS = ZONE_SRCS
STUBS = True
FILES = {"kit.hpp": KIT}
DEMO = r'''
#include "kit.hpp"
int main()
{
    Rig r;
    r.sensor("t", "temp");
    auto& f = r.sensor("f", "fan");
    auto& g = r.sensor("g", "fan");
    r.pid(1, "a", "temp", {"t"}, 3000);
    r.pid(1, "fan1", "fan", {"f"});
    r.pid(1, "fan2", "fan", {"g"});
    r.zone(1, 1000);
    r.build();
    r.thermal(1); r.fans(1);
    for (bool on : {true, false})
        for (auto& [path, iface] : simbus::Sim::get().ownObjects())
            if (iface.ends_with("Control.Mode"))
            {
                std::string err;
                simbus::Sim::get().ownSet(path, iface, "Manual", simbus::toVal(on), &err);
            }
    r.fans(1); r.fans(1);
    printf("%zu writes, %d %d %d and %d %d %d\n", f.forced.size(), int(f.forced[0]), int(f.forced[1]), int(f.forced[2]), int(g.forced[0]), int(g.forced[1]), int(g.forced[2]));
    return !(f.forced[1] && g.forced[1]) || f.forced[2] || g.forced[2] || f.forced[0] || g.forced[0];
}
'''
