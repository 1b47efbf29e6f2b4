ID = "c04-anchor-follows-output"
PROPERTY = "C04"
NEEDS = "hysteresis, and a reading that crosses the band without reaching another table entry before it turns back"
BREAKS = "the reading the band is measured from is moved only when the entry changed, not whenever the table was evaluated"
EDITS = [("pid/stepwisecontroller.cpp", """    else if ((lastInput - input) > info.negativeHysteresis)
    {
        output = ec::stepwise(info, input);
        lastInput = input;
    }
""", """    else if ((lastInput - input) > info.negativeHysteresis)
    {
        // Nothing to settle unless the step really changed.
        const double next = ec::stepwise(info, input);
        if (next != output)
        {
            output = next;
            lastInput = input;
        }
    }
""")]
SRCS = ["pid/stepwisecontroller.cpp", "pid/pidcontroller.cpp", "pid/util.cpp", "pid/tuning.cpp", "pid/ec/pid.cpp", "pid/ec/stepwise.cpp", "pid/ec/logging.cpp"]
STUBS = True
LIBS = "-lgmock -lgtest"
DEMO = r'''
#include "pid/stepwisecontroller.hpp"
#include <gmock/gmock.h>
#include "test/zone_mock.hpp"
#include <limits>
using namespace pid_control;
int main(int argc, char** argv)
{
    testing::InitGoogleMock(&argc, argv);
    testing::NiceMock<ZoneMock> zone;
    ec::StepwiseInfo i{};
    for (auto& x : i.reading) x = std::numeric_limits<double>::quiet_NaN();
    for (auto& x : i.output) x = std::numeric_limits<double>::quiet_NaN();
    i.reading[0] = 20; i.reading[1] = 50;
    i.output[0] = 10; i.output[1] = 40;
    i.positiveHysteresis = 4; i.negativeHysteresis = 4; i.isCeiling = false;
    auto p = StepwiseController::createStepwiseController(&zone, "t", {"a"}, i);
    double v = 0, out = 0;
    ON_CALL(zone, getCachedValue("a")).WillByDefault([&](const std::string&) { return v; });
    ON_CALL(zone, addSetPoint(testing::_, testing::_)).WillByDefault([&](double o, const std::string&) { out = o; });
    auto run = [&](double x, double want) { v = x; p->process(); if (out != want) printf("at %g: %g, not %g\n", x, out, want); return out != want; };
    return run(49, 10) | run(44, 10) | run(51, 40);
}
'''
