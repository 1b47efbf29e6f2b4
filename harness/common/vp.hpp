// The harness runtime: seeded cases run in child processes, verdicts, replay
// records and coverage counts.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vp
{

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t u64()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    // inclusive
    int64_t range(int64_t a, int64_t b)
    {
        return a + int64_t(u64() % (uint64_t(b - a) + 1));
    }
    bool chance(double p) { return unit() < p; }
    double unit() { return double(u64() >> 11) / 9007199254740992.0; }
    double real(double a, double b) { return a + (b - a) * unit(); }
    template <typename C> auto& pick(C& c) { return c[u64() % c.size()]; }
    template <typename C> const auto& pick(const C& c) { return c[u64() % c.size()]; }
    template <typename T> T of(std::initializer_list<T> l)
    {
        return *(l.begin() + u64() % l.size());
    }
    template <typename C> void shuffle(C& c)
    {
        for (size_t i = c.size(); i > 1; i--) std::swap(c[i - 1], c[u64() % i]);
    }
    // a value with few significant digits: sums and products stay exact-ish
    // and equalities (ties, band edges) happen
    double coarse(double a, double b, double step = 0.5)
    {
        return a + step * double(range(0, int64_t((b - a) / step)));
    }
};

struct Violation
{
    std::string key, msg;
};
struct HarnessError : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

struct Case
{
    Rng rng;
    const char* scenario;
    uint64_t index;
    bool thorough;
    std::string scratch;
    bool confined = false;
    std::ostringstream log; // description; kept for violations and samples
    uint64_t hash = 1469598103934665603ull;
    bool nontriv = false;

    Case(uint64_t seed) : rng(seed) {}

    [[noreturn]] void fail(const std::string& key, const std::string& msg)
    {
        throw Violation{key, msg};
    }
    void sig(uint64_t x)
    {
        hash ^= x;
        hash *= 1099511628211ull;
        hash ^= hash >> 29;
    }
    void sig(double d)
    {
        uint64_t u;
        std::memcpy(&u, &d, 8);
        sig(u);
    }
    void sig(const std::string& t)
    {
        for (char ch : t) sig(uint64_t(uint8_t(ch)));
    }
    void nontrivial() { nontriv = true; }
    void count(const std::string& what, uint64_t n = 1); // observed events
    const std::string& dir(); // scratch directory, created
    // tell the parent that the process may end with this status from here on
    void allowExit(int status);
    // this process ends through exit() so that static objects are destroyed
    // under the sanitizers as well (for scenarios with one case per process)
    bool leaveByExit = false;
};

using Fn = std::function<void(Case&)>;
struct Scenario
{
    const char* name;
    Fn fn;
    uint64_t quick;    // number of cases in the quick tier (all shards)
    uint64_t thorough; // and in the thorough tier
    uint64_t perProc;  // cases per child process (1 isolates global state)
};
int run(int argc, char** argv, const std::vector<Scenario>& scenarios);

// ---- virtual time (clock.cpp)
namespace clock
{
void enable(bool on); // off: the real clocks
void set(int64_t wallNs, int64_t monoNs);
void advance(int64_t ns); // both
void advanceWall(int64_t ns);
int64_t wall();
int64_t mono();
constexpr int64_t ms = 1000000, sec = 1000000000;
} // namespace clock

// ---- file redirection and containment (fsjail.cpp)
namespace fsjail
{
// paths beginning with `from` are looked up below `to` instead
void map(const std::string& from, const std::string& to);
// opening for writing (or creating, renaming, removing) outside `root` is
// refused and recorded
void confine(const std::string& root);
void clear();
const std::vector<std::string>& refused();
// called for every file opened (after redirection), write: opened for writing
extern void (*onOpen)(const char* path, bool write);
} // namespace fsjail

inline std::string num(double d)
{
    char b[40];
    snprintf(b, sizeof b, "%.17g", d);
    return b;
}
inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-9)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    if (std::isinf(a) || std::isinf(b)) return false;
    double m = std::max(std::fabs(a), std::fabs(b));
    return std::fabs(a - b) <= std::max(abs, rel * m);
}
constexpr double NaN = std::numeric_limits<double>::quiet_NaN();
constexpr double INF = std::numeric_limits<double>::infinity();
void writeFile(const std::string& path, const std::string& text);
std::string readFile(const std::string& path);
void mkdirs(const std::string& path);
struct Silence // std::cerr / std::cout captured while alive
{
    std::ostringstream err, out;
    std::streambuf *e, *o;
    Silence();
    ~Silence();
};

} // namespace vp

#define VP_STR(x) (static_cast<std::ostringstream&&>(std::ostringstream() << x).str())
#define VP_CHECK(c, cond, key, text)                                          \
    do                                                                        \
    {                                                                         \
        if (!(cond)) (c).fail(key, VP_STR(text));                             \
    } while (0)
