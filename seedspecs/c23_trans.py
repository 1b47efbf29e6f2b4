ID = "c23-transition-is-running"
PROPERTY = "C23"
NEEDS = "a signal that reports a state whose name only contains Running (TransitioningToRunning)"
BREAKS = "a host that is only on its way to running is taken for a running one, and stays so if it never gets there"
EDITS = [("hoststatemonitor.hpp", """            bool newPowerStatus = stateValue.ends_with(".Running");
""", """            bool newPowerStatus =
                stateValue.find("Running") != std::string::npos;
""")]
SRCS = ["sensors/host.cpp", "failsafeloggers/failsafe_logger.cpp", "failsafeloggers/failsafe_logger_utility.cpp", "pid/tuning.cpp"]
STUBS = True
DEMO = r'''
#include "hoststatemonitor.hpp"
#include "simbus/simbus.hpp"
#include <cstdio>
int main()
{
    auto& sim = simbus::Sim::get();
    static auto bus = sdbusplus::bus::new_default();
    auto& m = HostStateMonitor::getInstance(bus);
    m.startMonitoring();
    int bad = m.isPowerOn();
    auto say = [&](const char* s, bool want) {
        sim.emitChanged(":1.5", "/xyz/openbmc_project/state/host0", "xyz.openbmc_project.State.Host", {{"CurrentHostState", simbus::toVal(std::string("xyz.openbmc_project.State.Host.HostState.") + s)}});
        bad += m.isPowerOn() != want;
    };
    say("Off", false); say("TransitioningToRunning", false); say("Running", true); say("TransitioningToOff", false); say("Off", false); say("Quiesced", false); say("Running", true);
    printf("%d wrong\n", bad);
    return bad;
}
'''
