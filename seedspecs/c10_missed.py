ID = "c10-late-cycle-dropped"
PROPERTY = "C10"
NEEDS = "one handler that takes longer than two fan intervals (a slow bus or file system)"
BREAKS = "the schedule restarts from the present instead of making up late cycles, so the fan and thermal cycles drift"
EDITS = [("pid/pidloop.cpp", """        nextTime = timer->expiry();
    }
""", """        nextTime = timer->expiry();

        // Do not spin through a backlog after a stall.
        const auto now = std::chrono::steady_clock::now();
        if (now - nextTime >
            2 * std::chrono::milliseconds(zone->getCycleIntervalTime()))
        {
            nextTime = now;
        }
    }
""")]
SRCS = ["pid/pidloop.cpp", "pid/tuning.cpp", "pid/ec/pid.cpp", "pid/ec/logging.cpp"]
STUBS = True
DEMO = r'''
#include "pid/pidloop.hpp"
#include "pid/zone_interface.hpp"
#include <boost/asio.hpp>
#include <gmock/gmock.h>
#include <thread>
#include <chrono>
#include "test/zone_mock.hpp"
using namespace pid_control;
using namespace std::chrono_literals;
int main(int argc, char** argv)
{
    testing::InitGoogleMock(&argc, argv);
    boost::asio::io_context io;
    auto zone = std::make_shared<testing::NiceMock<ZoneMock>>();
    int fans = 0;
    ON_CALL(*zone, getCycleIntervalTime()).WillByDefault(testing::Return(20));
    ON_CALL(*zone, getUpdateThermalsCycle()).WillByDefault(testing::Return(20));
    ON_CALL(*zone, processFans()).WillByDefault([&] {
        if (++fans == 5) std::this_thread::sleep_for(400ms);
    });
    bool cancel = false;
    auto timer = std::make_shared<boost::asio::steady_timer>(io);
    auto t0 = std::chrono::steady_clock::now();
    pidControlLoop(zone, timer, &cancel, true, 0);
    io.run_for(1200ms);
    double took = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    int want = int(took / 0.020);
    printf("%d fan cycles in %.3f s, %d due\n", fans, took, want);
    return fans < want - 6;
}
'''
LIBS = "-lgmock -lgtest"
