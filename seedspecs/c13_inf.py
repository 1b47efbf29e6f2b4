ID = "c13-infinite-speed"
PROPERTY = "C13"
NEEDS = "a fan whose tachometer yields an infinite value while no other fan of the controller is spinning"
BREAKS = "an infinite speed is taken for a valid one and becomes the controller's input instead of zero"
EDITS = [("pid/fancontroller.cpp", "            if (!(std::isfinite(value)))\n", "            if (std::isnan(value))\n")]
SRCS = ["pid/fancontroller.cpp", "pid/pidcontroller.cpp", "pid/util.cpp", "pid/tuning.cpp", "pid/ec/pid.cpp", "pid/ec/logging.cpp"]
STUBS = True
DEMO = r'''
#include "pid/fancontroller.hpp"
#include <gmock/gmock.h>
#include <limits>
#include "test/zone_mock.hpp"
using namespace pid_control;
int main(int argc, char** argv)
{
    testing::InitGoogleMock(&argc, argv);
    testing::NiceMock<ZoneMock> zone;
    double inf = std::numeric_limits<double>::infinity();
    ec::pidinfo init{};
    auto p = FanController::createFanPid(&zone, "fan", {"a", "b"}, init);
    EXPECT_CALL(zone, getCachedValue("a")).WillRepeatedly(testing::Return(0.0));
    EXPECT_CALL(zone, getCachedValue("b")).WillRepeatedly(testing::Return(inf));
    double v = p->inputProc();
    printf("input %g\n", v);
    return v != 0.0;
}
'''
LIBS = "-lgmock -lgtest"
