ID = "c30-tool-gives-up"
PROPERTY = "C30"
NEEDS = "zone 1 not on the bus while the external sensor is"
BREAKS = "setsensor ends when the manual mode cannot be set, without setting the sensor"
EDITS = [("setsensor.cpp", """        fprintf(stderr, "call to Set the manual mode failed.\\n");
""", """        fprintf(stderr, "call to Set the manual mode failed.\\n");
        exit(EXIT_FAILURE);
"""), ("setsensor.cpp", "#include <cstdio>\n", "#include <cstdio>\n#include <cstdlib>\n")]
SRCS = []
STUBS = True
DEMO = r'''
#define main setsensor_main
#include "/repo/setsensor.cpp"
#undef main
#include "simbus/simbus.hpp"
#include <sys/wait.h>
#include <unistd.h>
int main()
{
    auto& sim = simbus::Sim::get();
    int bad = 0;
    for (int there = 0; there < 4; there++)
    {
        pid_t k = fork();
        if (!k)
        {
            for (int z = 0; z < 3; z++)
                if (z != 1 || there & 1)
                    sim.services["xyz.openbmc_project.State.FanCtrl"]["/xyz/openbmc_project/settings/fanctrl/zone" + std::to_string(z)]["xyz.openbmc_project.Control.Mode"]["Manual"] = simbus::toVal(false);
            if (there & 2)
                sim.services["xyz.openbmc_project.Hwmon.external"]["/xyz/openbmc_project/extsensors/margin/sluggish0"]["xyz.openbmc_project.Sensor.Value"]["Value"] = simbus::toVal(1.0);
            std::map<std::string, int> set;
            sim.onSet = [&](const simbus::SetRec& s) { set[s.path]++; };
            static int* seen = new int(0);
            atexit([] { if (!*seen) _exit(1); });
            setsensor_main(0, nullptr);
            *seen = 1;
            int want = (there & 1) + (there >> 1);
            _exit(int(set.size()) == want && (!(there & 1) || set.count("/xyz/openbmc_project/settings/fanctrl/zone1")) ? 0 : 1);
        }
        int st = 0;
        waitpid(k, &st, 0);
        bad += st != 0;
    }
    printf("%d wrong\n", bad);
    return bad;
}
'''
