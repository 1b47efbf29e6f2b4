from kit import *
ID = "c07-reading-again-clears"
PROPERTY = "C07"
NEEDS = "a sensor with a timeout that reports a failure while its readings stay fresh"
BREAKS = "a sensor with a timeout is judged by its age alone, so a fresh reading of a failed sensor ends failsafe"
EDITS = [("pid/zone.hpp", "            if (sensor->getFailed())\n", "            if (timeout == 0 && sensor->getFailed())\n")]
SRCS = ZONE_SRCS
STUBS = True
FILES = {"kit.hpp": KIT}
DEMO = r'''
#include "kit.hpp"
int main()
{
    Rig r;
    auto& t = r.sensor("t", "temp", 4);
    r.sensor("f", "fan");
    r.pid(1, "a", "temp", {"t"}, 3000);
    r.pid(1, "fan", "fan", {"f"});
    r.zone(1, 1000);
    r.build();
    int bad = !r.z[1]->getFailSafeMode();
    r.thermal(1); r.fans(1);
    bad += r.z[1]->getFailSafeMode();
    t.failed = true;
    r.thermal(1);
    bad += !r.z[1]->getFailSafeMode();
    t.failed = false; t.age = std::chrono::seconds(5);
    r.thermal(1);
    bad += !r.z[1]->getFailSafeMode();
    printf("%d wrong\n", bad);
    return bad;
}
'''
