ID = "c05-zero-sum"
PROPERTY = "C05"
NEEDS = "a power-sum controller all of whose valid readings are zero (or cancel out one by one)"
BREAKS = "valid readings that do not move the sum count as no reading, so the controller acts as if at its set-point"
EDITS = [("pid/thermalcontroller.cpp", """            leaderName = in.name;
        }

        acceptable = true;
""", """            leaderName = in.name;
            acceptable = true;
        }
""")]
SRCS = ["pid/thermalcontroller.cpp", "pid/pidcontroller.cpp", "pid/util.cpp", "pid/tuning.cpp", "pid/ec/pid.cpp", "pid/ec/logging.cpp"]
STUBS = True
LIBS = "-lgmock -lgtest"
DEMO = r'''
#include "pid/thermalcontroller.hpp"
#include <gmock/gmock.h>
#include "test/zone_mock.hpp"
using namespace pid_control;
int main(int argc, char** argv)
{
    testing::InitGoogleMock(&argc, argv);
    testing::NiceMock<ZoneMock> zone;
    ec::pidinfo init{};
    std::vector<conf::SensorInput> in(2);
    in[0].name = "a"; in[1].name = "b";
    auto p = ThermalController::createThermalPid(&zone, "t", in, 50, init, ThermalType::summation);
    double v = 0;
    ON_CALL(zone, getCachedValue(testing::_)).WillByDefault([&](const std::string&) { return v; });
    double z = p->inputProc();
    v = 3;
    double six = p->inputProc();
    printf("%g %g\n", z, six);
    return z != 0 || six != 6;
}
'''
