// Sensors updated and sampled from different threads (C26): built with the
// thread sanitizer (races) and without (torn or ageing samples at full speed).
#include "config.h"
#include "conf.hpp"
#include "dbus/dbushelper.hpp"
#include "dbus/dbuspassive.hpp"
#include "sensors/builder.hpp"
#include "sensors/host.hpp"
#include "sensors/manager.hpp"
#include "simbus/simbus.hpp"
#include "vp.hpp"

#include <atomic>
#include <chrono>
#include <cmath>
#include <mutex>
#include <thread>

using namespace pid_control;
using simbus::Sim;
using simbus::toVal;
using vp::Case;
using vp::num;

namespace
{
constexpr auto VALUE = "xyz.openbmc_project.Sensor.Value";
using Clock = std::chrono::high_resolution_clock;
int64_t ns(Clock::time_point t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); }
// pseudo-random hesitation, of its own in every thread
struct Jitter
{
    uint64_t s;
    double p;
    void operator()()
    {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        double u = double(s >> 11) / 9007199254740992.0;
        if (u > p) return;
        if (u < p / 8) std::this_thread::yield();
        else for (volatile int k = 0; k < int((s >> 40) & 127); k = k + 1) {}
    }
};

struct Shared
{
    // what update number k stored, and when it began and was over
    std::vector<double> value, unscaled;
    std::vector<std::atomic<int64_t>> lo, hi;
    explicit Shared(size_t n) : value(n), unscaled(n), lo(n), hi(n) {}
};
struct Seen
{
    std::string key, msg;
    uint64_t samples = 0, changes = 0, fresh = 0;
};

// one thread's samples
void watch(const std::function<ReadReturn()>& read, const std::function<int64_t(const ReadReturn&)>& which,
           const Shared& sh, bool checkUnscaled, std::atomic<bool>& stop, Jitter j, Seen& out)
{
    int64_t lastT = INT64_MIN, lastK = -1;
    auto bad = [&](const char* key, const std::string& m) {
        if (out.key.empty()) out.key = key, out.msg = m;
    };
    while (!stop.load(std::memory_order_relaxed) && out.key.empty())
    {
        ReadReturn r = read();
        out.samples++;
        int64_t k = which(r), t = ns(r.updated);
        if (k < 0 || size_t(k) >= sh.value.size())
        {
            bad("torn-sample", VP_STR("a sample holds " << num(r.value) << " / " << num(r.unscaled) << ", which no update stored"));
            break;
        }
        if (r.value != sh.value[size_t(k)] || (checkUnscaled && r.unscaled != sh.unscaled[size_t(k)]))
            bad("torn-sample", VP_STR("a sample holds value " << num(r.value) << " with unscaled " << num(r.unscaled) << "; update " << k << " stored " << num(sh.value[size_t(k)]) << " and " << num(sh.unscaled[size_t(k)])));
        // an update that is not over yet may be seen already
        int64_t lo = sh.lo[size_t(k)].load(std::memory_order_relaxed), hi = sh.hi[size_t(k)].load(std::memory_order_relaxed);
        if (lo != 0 && t < lo) bad("wrong-stamp", VP_STR("the value of update " << k << " carries a time stamp " << lo - t << " ns before that update began"));
        if (hi != 0 && t > hi) bad("wrong-stamp", VP_STR("the value of update " << k << " carries a time stamp " << t - hi << " ns after that update was over"));
        if (t < lastT) bad("back-in-time", VP_STR("a sample carries a time stamp " << lastT - t << " ns before that of the thread's sample before it"));
        if (k != lastK) out.changes++;
        lastT = t;
        lastK = k;
        j();
    }
}

void finish(Case& c, std::vector<Seen>& seen)
{
    uint64_t s = 0, ch = 0;
    for (auto& x : seen)
    {
        s += x.samples;
        ch += x.changes;
    }
    for (auto& x : seen)
        if (!x.key.empty()) c.fail(x.key, x.msg);
    c.count("samples", s);
    c.count("samples that saw another update than the one before", ch);
    if (ch > 10) c.nontrivial();
    c.sig(ch);
}

// updates by setValue() from several threads
void dbusDirect(Case& c)
{
    auto& r = c.rng;
    Sim::get().reset();
    vp::clock::enable(false);
    vp::Silence sil;
    auto bus = sdbusplus::bus::new_default();
    conf::SensorConfig cfg{};
    cfg.type = "temp";
    const std::string path = "/xyz/openbmc_project/sensors/temperature/t";
    cfg.readPath = path;
    Sim::get().services["svc"][path][VALUE]["Value"] = toVal(1.0);
    auto ri = DbusPassive::createDbusPassive(bus, "temp", "t", std::make_unique<DbusHelper>(bus), &cfg, nullptr);
    auto* s = dynamic_cast<DbusPassive*>(ri.get());
    if (!s) throw vp::HarnessError("not a DbusPassive");
    size_t writers = size_t(r.range(1, 3)), readers = size_t(r.range(1, 3));
    size_t per = c.thorough ? 40000 : 6000, n = writers * per + 1;
    Shared sh(n);
    for (size_t k = 0; k < n; k++) sh.unscaled[k] = double(k), sh.value[k] = double(k) * 0.5 + 7;
    sh.lo[0] = ns(Clock::now());
    s->setValue(sh.value[0], 0);
    sh.hi[0] = ns(Clock::now());
    std::atomic<bool> stop{false}, go{false};
    std::vector<Seen> seen(readers);
    std::vector<std::thread> ts, ws;
    double p = r.of({0.0, 0.1, 0.5, 1.0});
    for (size_t i = 0; i < readers; i++)
        ts.emplace_back([&, i, seed = r.u64()] {
            while (!go.load(std::memory_order_relaxed)) {}
            watch([&] { return ri->read(); }, [](const ReadReturn& x) { return std::isfinite(x.unscaled) ? int64_t(x.unscaled) : -1; }, sh, true, stop, {seed, p}, seen[i]);
        });
    for (size_t i = 0; i < writers; i++)
        ws.emplace_back([&, i, seed = r.u64()] {
            Jitter j{seed, p};
            while (!go.load(std::memory_order_relaxed)) {}
            for (size_t k = 0; k < per; k++)
            {
                size_t id = 1 + k * writers + i;
                sh.lo[id].store(ns(Clock::now()), std::memory_order_relaxed);
                s->setValue(sh.value[id], sh.unscaled[id]);
                sh.hi[id].store(ns(Clock::now()), std::memory_order_relaxed);
                j();
            }
        });
    go = true;
    for (auto& t : ws) t.join();
    stop = true;
    for (auto& t : ts) t.join();
    c.count("updates", n - 1);
    c.log << writers << " updating and " << readers << " sampling threads, hesitation " << p << "\n";
    finish(c, seen);
}

// updates by signals of the bus in one thread, of a sensor as it is built
void dbusSignal(Case& c)
{
    auto& r = c.rng;
    Sim::get().reset();
    vp::clock::enable(false);
    vp::Silence sil;
    auto bus = sdbusplus::bus::new_default();
    auto hostBus = sdbusplus::bus::new_default();
    conf::SensorConfig cfg{};
    cfg.type = r.of<std::string>({"temp", "margin", "power", "fan"});
    std::string layer = cfg.type == "fan" ? "fan_tach" : cfg.type == "power" ? "power" : "temperature";
    cfg.readPath = "/xyz/openbmc_project/sensors/" + layer + "/t";
    bool scaled = r.chance(0.5);
    auto& v = Sim::get().services["svc"][cfg.readPath][VALUE];
    v["Value"] = toVal(1.0);
    if (scaled)
    {
        v["MaxValue"] = toVal(1024.0);
        v["MinValue"] = toVal(0.0);
    }
    SensorManager mgr = buildSensors({{"t", cfg}}, bus, hostBus);
    auto* sensor = mgr.getSensor("t");
    size_t n = c.thorough ? 8000 : 2500, readers = size_t(r.range(1, 3));
    Shared sh(n);
    for (size_t k = 0; k < n; k++) sh.unscaled[k] = double(k + 1), sh.value[k] = scaled ? double(k + 1) / 1024 : double(k + 1);
    std::atomic<bool> stop{false}, go{false};
    std::vector<Seen> seen(readers);
    std::vector<std::thread> ts;
    double p = r.of({0.0, 0.1, 0.5, 1.0});
    for (size_t i = 0; i < readers; i++)
        ts.emplace_back([&, i, seed = r.u64()] {
            while (!go.load(std::memory_order_relaxed)) {}
            watch([&] { return sensor->read(); }, [](const ReadReturn& x) { return std::isfinite(x.unscaled) ? int64_t(x.unscaled) - 1 : -1; }, sh, true, stop, {seed, p}, seen[i]);
        });
    go = true;
    for (size_t k = 1; k < n; k++)
    {
        sh.lo[k].store(ns(Clock::now()), std::memory_order_relaxed);
        Sim::get().emitChanged("svc", cfg.readPath, VALUE, {{"Value", toVal(double(k + 1))}});
        sh.hi[k].store(ns(Clock::now()), std::memory_order_relaxed);
    }
    stop = true;
    for (auto& t : ts) t.join();
    c.count("updates", n - 1);
    c.log << cfg.type << (scaled ? " with a range, " : ", ") << readers << " sampling threads\n";
    finish(c, seen);
}

// external sensors, written through their object
void external(Case& c)
{
    auto& r = c.rng;
    Sim::get().reset();
    vp::clock::enable(false);
    vp::Silence sil;
    auto bus = sdbusplus::bus::new_default();
    bool viaBus = r.chance(0.5);
    const std::string path = "/xyz/openbmc_project/extsensors/temperature/e";
    auto s = HostSensor::createTemp("e", 2, bus, path.c_str(), true, false);
    auto* h = dynamic_cast<HostSensor*>(s.get());
    if (!h) throw vp::HarnessError("not a HostSensor");
    size_t n = c.thorough ? 20000 : 4000, readers = size_t(r.range(1, 3));
    Shared sh(n);
    for (size_t k = 0; k < n; k++) sh.value[k] = double(k);
    std::atomic<bool> stop{false}, go{false};
    std::vector<Seen> seen(readers);
    std::vector<uint64_t> j(readers * 16);
    std::atomic<bool> failed{false};
    std::vector<std::thread> ts;
    double p = r.of({0.0, 0.1, 0.5, 1.0});
    for (size_t i = 0; i < readers; i++)
        ts.emplace_back([&, i, seed = r.u64()] {
            while (!go.load(std::memory_order_relaxed)) {}
            watch([&] {
                // (every value here is finite)
                if (j[i * 16]++ % 8 == 0 && s->getFailed()) failed = true;
                return s->read();
            }, [](const ReadReturn& x) { return std::isfinite(x.value) ? int64_t(x.value) : -1; }, sh, false, stop, {seed, p}, seen[i]);
        });
    go = true;
    for (size_t k = 1; k < n; k++)
    {
        sh.lo[k].store(ns(Clock::now()), std::memory_order_relaxed);
        if (viaBus) Sim::get().ownSet(path, VALUE, "Value", toVal(double(k)));
        else h->value(double(k));
        sh.hi[k].store(ns(Clock::now()), std::memory_order_relaxed);
    }
    stop = true;
    for (auto& t : ts) t.join();
    VP_CHECK(c, !failed, "race-failed", "the sensor counted as failed although only finite values were written");
    c.count("updates", n - 1);
    c.log << readers << " sampling threads, updates " << (viaBus ? "over the bus" : "direct") << "\n";
    finish(c, seen);
}
} // namespace

int main(int argc, char** argv)
{
    return vp::run(argc, argv,
                   {
                       {"race_dbus", dbusDirect, 400, 3000, 5},
                       {"race_signal", dbusSignal, 240, 2000, 5},
                       {"race_external", external, 240, 2000, 5},
                   });
}
