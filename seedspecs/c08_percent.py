ID = "c08-percent-at-entry"
PROPERTY = "C08"
NEEDS = "two sensors with different failsafe percentages, the one with the higher percentage failing after the zone is already in failsafe"
BREAKS = "fans keep the percentage that applied when failsafe was entered and are driven below the failsafe speed of the later failure"
EDITS = [("pid/fancontroller.cpp", """            failsafePrevState = failsafeCurrState;
            failsafeTransition = true;
""", """            failsafePrevState = failsafeCurrState;
            failsafeTransition = true;
            failsafeDuty = _owner->getFailSafePercent();
"""), ("pid/fancontroller.cpp", """            double failsafePercent = _owner->getFailSafePercent();

            if constexpr""", """            double failsafePercent = failsafeDuty;

            if constexpr"""), ("pid/fancontroller.hpp", "    bool failsafeTransition = true;\n", "    bool failsafeTransition = true;\n    double failsafeDuty = 100.0;\n")]
SRCS = ["pid/fancontroller.cpp", "pid/pidcontroller.cpp", "pid/util.cpp", "pid/tuning.cpp", "pid/ec/pid.cpp", "pid/ec/logging.cpp"]
STUBS = True
DEMO = r'''
#include "pid/fancontroller.hpp"
#include <gmock/gmock.h>
#include "test/zone_mock.hpp"
#include "test/sensor_mock.hpp"
using namespace pid_control;
int main(int argc, char** argv)
{
    testing::InitGoogleMock(&argc, argv);
    testing::NiceMock<ZoneMock> zone;
    ec::pidinfo init{};
    auto p = FanController::createFanPid(&zone, "fan", {"a"}, init);
    testing::NiceMock<SensorMock> sensor("a", 0);
    double percent = 40, last = -1;
    ON_CALL(zone, getSensor("a")).WillByDefault(testing::Return(&sensor));
    ON_CALL(zone, getFailSafeMode()).WillByDefault(testing::Return(true));
    ON_CALL(zone, getFailSafePercent()).WillByDefault([&] { return percent; });
    ON_CALL(sensor, write(testing::_, testing::_, testing::_)).WillByDefault([&](double v, bool, int64_t*) { last = v; });
    ON_CALL(sensor, write(testing::_)).WillByDefault([&](double v) { last = v; });
    p->outputProc(10);
    double first = last;
    percent = 90;
    p->outputProc(10);
    printf("%g then %g\n", first, last);
    return !(first >= 0.4 && last >= 0.9);
}
'''
LIBS = "-lgmock -lgtest"
