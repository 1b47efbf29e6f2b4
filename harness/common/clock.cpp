// Virtual time: the program links these definitions instead of libstdc++'s.
#include "vp.hpp"

#include <atomic>
#include <chrono>
#include <cerrno>
#include <ctime>

namespace vp::clock
{
static std::atomic<bool> on{false};
static std::atomic<int64_t> w{0}, m{0};
void enable(bool b) { on = b; }
void set(int64_t wallNs, int64_t monoNs)
{
    w = wallNs;
    m = monoNs;
    on = true;
}
void advance(int64_t ns)
{
    w += ns;
    m += ns;
}
void advanceWall(int64_t ns) { w += ns; }
int64_t wall() { return w; }
int64_t mono() { return m; }
static int64_t real(clockid_t id)
{
    timespec t;
    clock_gettime(id, &t);
    return int64_t(t.tv_sec) * 1000000000 + t.tv_nsec;
}
// real time, but without the steps a clock service may make while we run
static int64_t nowW()
{
    static const int64_t base = real(CLOCK_REALTIME) - real(CLOCK_MONOTONIC);
    return on ? w.load() : base + real(CLOCK_MONOTONIC);
}
static int64_t nowM() { return on ? m.load() : real(CLOCK_MONOTONIC); }
} // namespace vp::clock

namespace std::chrono
{
inline namespace _V2
{
system_clock::time_point system_clock::now() noexcept
{
    return time_point(duration(vp::clock::nowW()));
}
steady_clock::time_point steady_clock::now() noexcept
{
    return time_point(duration(vp::clock::nowM()));
}
} // namespace _V2
} // namespace std::chrono

// asio falls back to asking the clock when there is no timerfd; the kernel
// knows nothing of virtual time
extern "C" int timerfd_create(int, int) noexcept
{
    errno = EMFILE;
    return -1;
}
