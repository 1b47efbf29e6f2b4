ID = "c03-band-by-error"
PROPERTY = "C03"
NEEDS = "different positive and negative bands and a reading on the other side of the set-point, moving against it"
BREAKS = "the band is chosen by the side of the set-point the reading is on, not by the direction it moves in"
EDITS = [("pid/pidcontroller.cpp", """            else if ((input - lastInput) > info->positiveHysteresis)
            {
                lastInput = input;
            }
            else if ((lastInput - input) > info->negativeHysteresis)
            {
                lastInput = input;
            }
""", """            else
            {
                const double band = (input > setpt)
                                        ? info->positiveHysteresis
                                        : info->negativeHysteresis;
                if (std::abs(input - lastInput) > band)
                {
                    lastInput = input;
                }
            }
""")]
SRCS = ["pid/thermalcontroller.cpp", "pid/pidcontroller.cpp", "pid/util.cpp", "pid/tuning.cpp", "pid/ec/pid.cpp", "pid/ec/logging.cpp"]
STUBS = True
LIBS = "-lgmock -lgtest"
DEMO = r'''
#include "pid/thermalcontroller.hpp"
#include <gmock/gmock.h>
#include "test/zone_mock.hpp"
using namespace pid_control;
int main(int argc, char** argv)
{
    testing::InitGoogleMock(&argc, argv);
    testing::NiceMock<ZoneMock> zone;
    ec::pidinfo init{};
    init.ts = 1; init.proportionalCoeff = 1; init.outLim = {-1000, 1000};
    init.positiveHysteresis = 5; init.negativeHysteresis = 1;
    std::vector<conf::SensorInput> in(1);
    in[0].name = "a";
    auto p = ThermalController::createThermalPid(&zone, "t", in, 50, init, ThermalType::absolute);
    double v = 60, out = 0;
    ON_CALL(zone, getCachedValue("a")).WillByDefault([&](const std::string&) { return v; });
    ON_CALL(zone, addSetPoint(testing::_, testing::_)).WillByDefault([&](double o, const std::string&) { out = o; });
    auto run = [&](double x, double want) { v = x; p->process(); if (out != want) printf("at %g: %g, not %g\n", x, out, want); return out != want; };
    return run(60, -10) | run(57, -7) | run(61, -7) | run(63, -13) | run(40, 10) | run(44, 10) | run(46, 4);
}
'''
