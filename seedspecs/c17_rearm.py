ID = "c17-queued-cycle-rearms"
PROPERTY = "C17"
NEEDS = "a stop (reload or configuration change) that is handled after the timer of a loop expired but before its handler ran"
BREAKS = "only the start of a loop looks whether the loops are being stopped, so a cycle that was already due arms its timer again and the old loop goes on"
EDITS = [("pid/pidloop.cpp", """    if (*isCanceling)
    {
        return;
    }

    std""", """    if (first && *isCanceling)
    {
        return;
    }

    std""")]
SRCS = ["pid/pidloop.cpp", "pid/tuning.cpp", "pid/ec/pid.cpp", "pid/ec/logging.cpp"]
STUBS = True
LIBS = "-lgmock -lgtest"
DEMO = r'''
#include "pid/pidloop.hpp"
#include "pid/zone_interface.hpp"
#include <boost/asio.hpp>
#include <gmock/gmock.h>
#include <thread>
#include <chrono>
#include "test/zone_mock.hpp"
using namespace pid_control;
using namespace std::chrono_literals;
int main(int argc, char** argv)
{
    testing::InitGoogleMock(&argc, argv);
    boost::asio::io_context io;
    auto zone = std::make_shared<testing::NiceMock<ZoneMock>>();
    int fans = 0, atStop = -1;
    ON_CALL(*zone, getCycleIntervalTime()).WillByDefault(testing::Return(20));
    ON_CALL(*zone, getUpdateThermalsCycle()).WillByDefault(testing::Return(20));
    ON_CALL(*zone, processFans()).WillByDefault([&] { fans++; });
    bool cancel = false;
    auto timer = std::make_shared<boost::asio::steady_timer>(io);
    boost::asio::steady_timer stop(io);
    stop.expires_after(5ms);
    stop.async_wait([&](auto) { timer->cancel(); timer.reset(); cancel = true; atStop = fans; });
    pidControlLoop(zone, timer, &cancel, true, 0);
    // both are due before either is handled
    std::this_thread::sleep_for(60ms);
    io.run_for(500ms);
    printf("%d cycles, %d when stopped\n", fans, atStop);
    return atStop < 0 || fans > atStop + 1;
}
'''
