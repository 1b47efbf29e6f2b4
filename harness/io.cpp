// Sensors and actuators of every source, built by the real builders over a
// simulated bus and a scratch file tree, each compared with a reference of the
// outside world (C11, C12, C16, C18, C23, C24, C25, C28).
#include "config.h"
#include "conf.hpp"
#include "dbus/dbushelper.hpp"
#include "dbus/dbuspassive.hpp"
#include "dbus/dbuswrite.hpp"
#include "dbus/dbuspassiveredundancy.hpp"
#include "errors/exception.hpp"
#include "hoststatemonitor.hpp"
#include "ipmi/manualcmds.hpp"
#include "ipmid/oemopenbmc.hpp"
#include "ipmid/oemrouter.hpp"
#include "sensors/builder.hpp"
#include "sensors/host.hpp"
#include "sensors/manager.hpp"
#include "sensors/pluggable.hpp"
#include "sysfs/sysfsread.hpp"
#include "sysfs/sysfswrite.hpp"
#include "ref.hpp"

#include <sdbusplus/bus.hpp>
#include <simbus/simbus.hpp>

#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <set>
#include <sys/stat.h>

using namespace pid_control;
using simbus::Sim;
using simbus::toVal;
using vp::Case;
using vp::num;
using vp::clock::ms;
using vp::clock::sec;
namespace fs = std::filesystem;

namespace
{
constexpr auto VALUE = "xyz.openbmc_project.Sensor.Value";
constexpr auto CRIT = "xyz.openbmc_project.Sensor.Threshold.Critical";
constexpr auto WARN = "xyz.openbmc_project.Sensor.Threshold.Warning";
constexpr auto AVAIL = "xyz.openbmc_project.State.Decorator.Availability";
constexpr auto OPER = "xyz.openbmc_project.State.Decorator.OperationalStatus";
constexpr auto PWM = "xyz.openbmc_project.Control.FanPwm";
constexpr auto REDUN = "xyz.openbmc_project.Control.FanRedundancy";
constexpr auto HOSTIF = "xyz.openbmc_project.State.Host";
constexpr auto MODE = "xyz.openbmc_project.Control.Mode";

void wf(const std::string& path, const std::string& text)
{
    vp::mkdirs(path.substr(0, path.rfind('/')));
    vp::writeFile(path, text);
}
int64_t stampOf(const ReadReturn& r)
{
    return std::chrono::duration_cast<std::chrono::nanoseconds>(r.updated.time_since_epoch())
        .count();
}
void startClock(Case& c)
{
    vp::clock::enable(true);
    vp::clock::set(1600000000 * sec + c.rng.range(0, 999999999), 1000 * sec);
}
void pass(Case& c) { vp::clock::advance(c.rng.of<int64_t>({1, 1000, 3 * ms, 100 * ms, 999 * ms, sec, 5 * sec})); }

// ------------------------------------------------ a D-Bus sensor's reference
struct DS
{
    std::string name, type, path, svc;
    conf::SensorConfig cfg{};
    bool fan = false, margin = false;
    double scale = 0, mn = 0, mx = 0;
    bool avail = true, functional = true, bad = false, hot = false, missing = false;
    std::set<std::string> alarms;
    double value = 0, unscaled = 0;
    int64_t stamp = 0;
    bool red = false;

    void update(double v, bool force, int64_t now)
    {
        bad = !std::isfinite(v);
        if (bad && !force) return;
        v *= std::pow(10.0, scale);
        unscaled = v;
        value = mx > 0 && mx > mn ? (v - mn) / (mx - mn) : v;
        if (margin) hot = unscaled <= 0;
        stamp = now;
    }
    bool failed() const
    {
        if (fan && red) return true;
        if (missing) return true;
        if (!fan && !avail && !cfg.unavailableAsFailed) return false;
        return bad || hot || !alarms.empty() || !avail || !functional;
    }
};

simbus::Val valueVal(vp::Rng& r, double v, bool asInt)
{
    if (asInt && std::isfinite(v) && std::fabs(v) < 1e15) return toVal(int64_t(v));
    return toVal(v);
}
double numOf(const simbus::Val& v) { return v.t == 'd' ? v.d : double(v.i); }

double reading(vp::Rng& r, bool margin)
{
    switch (r.range(0, 9))
    {
        case 0: return vp::NaN;
        case 1: return r.of({vp::INF, -vp::INF, vp::NaN});
        case 2: return 0;
        case 3: return r.of({-1.0, -0.0, -40.5, 1e-9, -1e-9});
        case 4: return r.of({1e300, -1e300, 1e-300, 1e12, 4294967296.0});
        default: return r.coarse(margin ? -10 : -20, 120, 0.25);
    }
}

// put a sensor on the bus and say what it should look like
void genDS(Case& c, DS& s, int i, bool plainPath)
{
    auto& r = c.rng;
    Sim::get().services[s.svc].erase(s.path);
    s = DS{};
    s.type = r.of<std::string>({"temp", "temp", "margin", "fan", "fan", "power", "powersum"});
    s.fan = s.type == "fan";
    s.margin = s.type == "margin";
    s.name = r.of<std::string>({"temp", "CPU_Temp", "fan", "T", "next", "sysfan", "extsensors", "None", "external_margin"}) + std::to_string(i);
    std::string layer = s.fan ? "fan_tach" : s.type.starts_with("power") ? "power" : "temperature";
    s.path = "/xyz/openbmc_project/sensors/" + layer + "/" + s.name;
    s.svc = "svc.S" + std::to_string(r.range(0, 2));
    s.cfg.type = s.type;
    s.cfg.readPath = plainPath && r.chance(0.3) ? "" : s.path;
    s.cfg.timeout = r.chance(0.08) ? r.of<int64_t>({255, 256, 300, 40000, 65535, 65536, 100000, 3000000}) : r.range(0, 5);
    s.cfg.ignoreDbusMinMax = r.chance(0.4);
    s.cfg.unavailableAsFailed = r.chance(0.6);
    s.cfg.ignoreFailIfHostOff = r.chance(0.3);
    auto& o = Sim::get().services[s.svc][s.path];
    auto& v = o[VALUE];
    bool asInt = r.chance(0.2);
    double v0 = r.chance(0.7) ? r.coarse(1, 120, 0.5) : reading(r, s.margin);
    if (r.chance(0.8)) v["Unit"] = toVal(std::string("xyz.openbmc_project.Sensor.Value.Unit.DegreesC"));
    if (r.chance(0.4))
    {
        s.scale = double(r.of<int64_t>({-3, -2, 0, 1, 3}));
        v["Scale"] = toVal(int64_t(s.scale));
    }
    double mn = 0, mx = 0;
    if (r.chance(0.7))
    {
        mn = r.of({0.0, 0.0, -20.0, 10.0, 500.0});
        mx = r.of({0.0, 100.0, 255.0, 12000.0, 10.0, -5.0});
        if (r.chance(0.8)) v["MaxValue"] = valueVal(r, mx, asInt); else mx = 0;
        if (r.chance(0.8)) v["MinValue"] = valueVal(r, mn, asInt); else mn = 0;
    }
    if (s.cfg.ignoreDbusMinMax) mn = mx = 0;
    s.mn = mn * std::pow(10.0, s.scale);
    s.mx = mx * std::pow(10.0, s.scale);
    v["Value"] = valueVal(r, v0, asInt);
    v0 = numOf(v["Value"]);
    if (r.chance(0.5))
    {
        s.avail = r.chance(0.7);
        o[AVAIL]["Available"] = toVal(s.avail);
    }
    if (r.chance(0.6))
    {
        for (auto k : {"CriticalAlarmLow", "CriticalAlarmHigh"})
            if (r.chance(0.85))
            {
                bool a = r.chance(0.2);
                o[CRIT][k] = toVal(a);
                if (a) s.alarms.insert(k);
            }
        o[CRIT]["CriticalHigh"] = toVal(90.5);
    }
    if (r.chance(0.5))
    {
        for (auto k : {"WarningAlarmLow", "WarningAlarmHigh"})
        {
            bool a = r.chance(0.25);
            o[WARN][k] = toVal(a);
            if (a && UNC_FAILSAFE && k == std::string("WarningAlarmHigh")) s.alarms.insert(k);
        }
    }
    s.update(v0, true, vp::clock::wall());
    c.log << s.name << " " << s.type << " path=" << s.path << " scale=" << s.scale << " range=["
          << num(s.mn) << "," << num(s.mx) << "] value=" << num(v0) << " avail=" << s.avail
          << " unavailableAsFailed=" << s.cfg.unavailableAsFailed << " alarms=" << s.alarms.size()
          << "\n";
    c.sig(s.type);
    c.sig(v0);
}

// one random signal about sensor s; returns a description
std::string signalDS(Case& c, DS& s)
{
    auto& r = c.rng;
    auto& sim = Sim::get();
    std::string snd = r.chance(0.8) ? s.svc : ":1.77";
    int64_t now = vp::clock::wall();
    std::ostringstream d;
    switch (r.range(0, 12))
    {
        case 0:
        case 1:
        case 2:
        case 3:
        {
            auto v = valueVal(r, reading(r, s.margin), r.chance(0.15));
            std::map<std::string, simbus::Val> ch{{"Value", v}};
            if (r.chance(0.2)) ch["MaxValue"] = toVal(r.coarse(1, 300));
            if (r.chance(0.1)) ch["Unit"] = toVal(std::string("x"));
            sim.emitChanged(snd, s.path, VALUE, ch);
            s.update(numOf(v), false, now);
            d << "Value " << num(numOf(v));
            break;
        }
        case 4:
            sim.emitChanged(snd, s.path, VALUE, {{"MaxValue", toVal(r.coarse(1, 300))}, {"MinValue", toVal(-3.0)}});
            d << "range only";
            break;
        case 5:
        case 6:
        {
            std::map<std::string, simbus::Val> ch;
            for (auto k : {"CriticalAlarmLow", "CriticalAlarmHigh"})
                if (r.chance(0.6))
                {
                    bool a = r.chance(0.45);
                    ch[k] = toVal(a);
                    if (a) s.alarms.insert(k); else s.alarms.erase(k);
                    d << k << "=" << a << " ";
                }
            if (r.chance(0.3)) ch["CriticalHigh"] = toVal(80.0);
            sim.emitChanged(snd, s.path, CRIT, ch);
            break;
        }
        case 7:
        {
            std::map<std::string, simbus::Val> ch;
            for (auto k : {"WarningAlarmLow", "WarningAlarmHigh"})
                if (r.chance(0.7))
                {
                    bool a = r.chance(0.5);
                    ch[k] = toVal(a);
                    if (UNC_FAILSAFE && k == std::string("WarningAlarmHigh"))
                    {
                        if (a) s.alarms.insert(k); else s.alarms.erase(k);
                    }
                    d << k << "=" << a << " ";
                }
            sim.emitChanged(snd, s.path, WARN, ch);
            break;
        }
        case 8:
        {
            bool a = r.chance(0.5);
            sim.emitChanged(snd, s.path, AVAIL, {{"Available", toVal(a)}});
            s.avail = a;
            if (!a) s.update(vp::NaN, true, now);
            d << "Available=" << a;
            break;
        }
        case 9:
        {
            bool a = r.chance(0.5);
            sim.emitChanged(snd, s.path, OPER, {{"Functional", toVal(a)}});
            s.functional = a;
            d << "Functional=" << a;
            break;
        }
        case 10: // not about this sensor
        {
            std::string p = r.of<std::string>({s.path + "0", s.path.substr(0, s.path.size() - 1),
                                               "/xyz/openbmc_project/sensors/voltage/" + s.name});
            std::string i = r.of<std::string>({VALUE, CRIT, AVAIL, OPER});
            sim.emitChanged(snd, p, i,
                            {i == VALUE  ? std::pair<const std::string, simbus::Val>{"Value", toVal(-7.0)}
                             : i == CRIT ? std::pair<const std::string, simbus::Val>{"CriticalAlarmHigh", toVal(true)}
                             : i == AVAIL ? std::pair<const std::string, simbus::Val>{"Available", toVal(false)}
                                          : std::pair<const std::string, simbus::Val>{"Functional", toVal(false)}});
            d << "signal of " << p << " (ignored)";
            break;
        }
        case 11: // another interface of the same object
            sim.emitChanged(snd, s.path,
                            r.of<std::string>({"xyz.openbmc_project.Association.Definitions",
                                               "xyz.openbmc_project.Sensor.ValueX", "org.example.Value",
                                               "xyz.openbmc_project.Object.Enable"}),
                            {{"Value", toVal(-9.0)}, {"CriticalAlarmHigh", toVal(true)},
                             {"Enabled", toVal(false)}});
            d << "other interface";
            break;
        default:
            sim.emitChanged(snd, s.path, r.of<std::string>({VALUE, CRIT, AVAIL, OPER}), {});
            d << "empty signal";
    }
    return d.str();
}

void checkRead(Case& c, const std::string& key, const ReadReturn& g, double value, double unscaled,
               int64_t stamp, const std::string& name)
{
    VP_CHECK(c, vp::close(g.value, value, 1e-12, 0), key + "-value",
             name << " reads " << num(g.value) << ", expected " << num(value));
    VP_CHECK(c, vp::close(g.unscaled, unscaled, 1e-12, 0), key + "-unscaled",
             name << " reads unscaled " << num(g.unscaled) << ", expected " << num(unscaled));
    VP_CHECK(c, stampOf(g) == stamp, key + "-stamp",
             name << " is stamped " << stampOf(g) << ", expected " << stamp);
}

// ---------------------------------------------------------------- C12
void dbusSensor(Case& c)
{
    auto& r = c.rng;
    Sim::get().reset();
    startClock(c);
    vp::Silence sil;
    auto bus = sdbusplus::bus::new_default();
    int n = int(r.range(1, 4));
    std::vector<DS> ds(static_cast<size_t>(n));
    for (int i = 0; i < n; i++)
    {
        genDS(c, ds[size_t(i)], i, true);
        if (HANDLE_MISSING_OBJECT_PATHS && r.chance(0.2))
        {
            auto& s = ds[size_t(i)];
            Sim::get().services[s.svc].erase(s.path);
            s.missing = true;
            s.avail = false;
            s.scale = 0;
            s.cfg.unavailableAsFailed = true;
            s.cfg.ignoreDbusMinMax = true;
            s.mn = s.mx = 0;
            s.alarms.clear();
            s.update(vp::NaN, true, vp::clock::wall());
        }
    }
    // another sensor over the same object
    int twinOf = -1;
    if (r.chance(0.3))
    {
        twinOf = int(r.range(0, n - 1));
        DS t = ds[size_t(twinOf)];
        t.name += "again";
        if (!t.missing) t.cfg.unavailableAsFailed = r.chance(0.5);
        if (t.cfg.readPath.empty()) t.cfg.readPath = t.path;
        ds.push_back(t);
        c.log << t.name << " reads the same object\n";
    }
    // reading of thresholds or availability may fail: as if not offered
    if (r.chance(0.2))
    {
        std::string iface = r.of<std::string>({CRIT, AVAIL});
        std::string who = r.pick(ds).path;
        Sim::get().fault = [iface, who](const simbus::Msg& m) -> std::string {
            if (m.path == who && !m.body.empty() && m.body[0].t == 's' && m.body[0].s == iface)
                return "org.freedesktop.DBus.Error.Timeout";
            return "";
        };
        for (auto& s : ds)
            if (s.path == who && !s.missing)
            {
                if (iface == AVAIL) s.avail = true;
                else if (s.alarms.erase("CriticalAlarmLow") + s.alarms.erase("CriticalAlarmHigh"))
                    c.log << "thresholds of " << s.name << " unreadable\n";
            }
    }
    std::vector<std::unique_ptr<ReadInterface>> rs;
    for (auto& s : ds)
    {
        rs.push_back(DbusPassive::createDbusPassive(bus, s.type, s.name,
                                                    std::make_unique<DbusHelper>(bus), &s.cfg, nullptr));
        VP_CHECK(c, rs.back() != nullptr, "sensor-create", s.name << " was not created");
    }
    Sim::get().fault = nullptr;
    int steps = int(r.of({10, 30, 80, c.thorough ? 400 : 120})), fails = 0, oks = 0;
    std::string last = "start";
    for (int k = 0; k <= steps; k++)
    {
        for (size_t i = 0; i < ds.size(); i++)
        {
            auto& s = ds[i];
            checkRead(c, "sensor", rs[i]->read(), s.value, s.unscaled, s.stamp, s.name);
            bool f = rs[i]->getFailed();
            VP_CHECK(c, f == s.failed(), "sensor-failed",
                     s.name << " counts as " << (f ? "failed" : "not failed") << " after " << last
                            << "; bad=" << s.bad << " hot=" << s.hot << " alarms=" << s.alarms.size()
                            << " available=" << s.avail << " functional=" << s.functional);
            (f ? fails : oks)++;
        }
        if (k == steps) break;
        if (r.chance(0.7)) pass(c);
        auto& s = r.chance(0.5) && twinOf >= 0 ? ds[size_t(twinOf)] : ds[size_t(r.range(0, n - 1))];
        last = s.name + ": " + signalDS(c, s);
        if (&s == &ds[0] + twinOf)
        {
            DS& t = ds.back();
            auto name = t.name;
            auto cfg = t.cfg;
            t = s;
            t.name = name;
            t.cfg = cfg;
            c.count("signals to two sensors");
        }
        c.log << last << "\n";
        c.sig(last);
    }
    c.count("signals sent", uint64_t(steps));
    c.count("sensor samples failed", uint64_t(fails));
    c.count("sensor samples healthy", uint64_t(oks));
    if (fails && oks) c.nontrivial();
}

// ---------------------------------------------------------------- C24
struct Group
{
    std::string path, svc, status;
    std::vector<std::string> members;
};
void redundancy(Case& c)
{
    auto& r = c.rng;
    auto& sim = Sim::get();
    sim.reset();
    startClock(c);
    vp::Silence sil;
    auto bus = sdbusplus::bus::new_default();
    auto hostBus = sdbusplus::bus::new_default();
    int n = int(r.range(1, 6));
    std::map<std::string, conf::SensorConfig> cfg;
    std::vector<DS> ds;
    for (int i = 0; i < n; i++)
    {
        DS s;
        do
            genDS(c, s, i, false), s.cfg.ignoreFailIfHostOff = false;
        while (i == 0 && !s.fan);
        cfg[s.name] = s.cfg;
        ds.push_back(s);
    }
    std::vector<Group> gs(size_t(r.range(1, 4)));
    std::map<std::string, std::vector<std::string>> failedNow; // per group as last reported
    static const std::vector<std::string> states = {
        "xyz.openbmc_project.Control.FanRedundancy.State.Full",
        "xyz.openbmc_project.Control.FanRedundancy.State.Degraded",
        "xyz.openbmc_project.Control.FanRedundancy.State.Failed"};
    auto isFailed = [](const std::string& s) { return s.ends_with("Failed"); };
    auto members = [&]() {
        std::vector<std::string> m;
        for (auto& s : ds)
            if (r.chance(0.5)) m.push_back(s.path);
        if (r.chance(0.3)) m.push_back("/xyz/openbmc_project/sensors/fan_tach/absent");
        for (auto& s : ds) // others of almost the same name
            if (r.chance(0.2))
            {
                auto slash = s.path.rfind('/');
                m.push_back(r.of<std::string>({s.path + "0", s.path + "_1", s.path.substr(0, s.path.size() - 1),
                                               "/xyz/openbmc_project/sensors/fan_tach/x" + s.path.substr(slash + 1),
                                               "/xyz/openbmc_project/sensors/fan_pwm" + s.path.substr(slash), s.path.substr(0, slash)}));
                bool other = true; // unless it is one of ours
                for (auto& o : ds) other = other && o.path != m.back();
                if (!other) m.pop_back();
            }
        r.shuffle(m);
        return m;
    };
    bool startFault = r.chance(0.2);
    std::set<std::string> broken;
    for (size_t i = 0; i < gs.size(); i++)
    {
        auto& g = gs[i];
        g.path = "/xyz/openbmc_project/control/FanRedundancy/Tach" + std::to_string(i);
        g.svc = "svc.Red" + std::to_string(r.range(0, 1));
        g.status = r.pick(states);
        g.members = members();
        auto& p = sim.services[g.svc][g.path][REDUN];
        p["AllowedFailures"] = toVal(uint8_t(1));
        p["Collection"] = toVal(g.members);
        p["Status"] = toVal(g.status);
        bool known = true;
        if (r.chance(0.1)) p.erase(r.of<std::string>({"Collection", "Status"})), known = false;
        if (startFault && r.chance(0.5)) broken.insert(g.path), known = false;
        if (known && isFailed(g.status)) failedNow[g.path] = g.members;
        c.log << g.path << " " << g.status << " known=" << known << " members=" << g.members.size() << "\n";
    }
    bool mapperDown = startFault && r.chance(0.3);
    if (mapperDown) failedNow.clear();
    if (startFault)
        sim.fault = [&](const simbus::Msg& m) -> std::string {
            if (broken.count(m.path) || (mapperDown && m.member == "GetSubTree"))
                return "org.freedesktop.DBus.Error.NoReply";
            return "";
        };
    SensorManager mgr = buildSensors(cfg, bus, hostBus);
    sim.fault = nullptr;
    int steps = int(r.of({5, 15, 40})), hits = 0, clears = 0;
    for (int k = 0; k <= steps; k++)
    {
        for (auto& s : ds)
        {
            bool was = s.red;
            s.red = false;
            for (auto& [p, m] : failedNow)
                if (std::find(m.begin(), m.end(), s.path) != m.end()) s.red = true;
            hits += s.fan && s.red;
            clears += s.fan && was && !s.red;
            bool f = mgr.getSensor(s.name)->getFailed();
            VP_CHECK(c, f == s.failed(), "redundancy",
                     s.name << " (" << s.type << ") counts as " << (f ? "failed" : "not failed")
                            << " at step " << k << "; in a failed group: " << s.red);
        }
        if (k == steps) break;
        pass(c);
        auto& g = r.pick(gs);
        auto& p = sim.services[g.svc][g.path][REDUN];
        double x = r.unit();
        if (x < 0.55) // a report
        {
            if (r.chance(0.3)) g.members = members();
            p["Collection"] = toVal(g.members);
            g.status = r.pick(states);
            p["Status"] = toVal(g.status);
            std::map<std::string, simbus::Val> ch{{"Status", p["Status"]}};
            if (r.chance(0.3)) ch["Collection"] = p["Collection"];
            bool fault = r.chance(0.15);
            if (fault)
                sim.fault = [](const simbus::Msg&) { return "org.freedesktop.DBus.Error.NoReply"; };
            sim.emitChanged(g.svc, g.path, REDUN, ch);
            sim.fault = nullptr;
            if (!fault)
            {
                if (isFailed(g.status)) failedNow[g.path] = g.members;
                else failedNow.erase(g.path);
            }
            c.log << "report " << g.path << " " << g.status << (fault ? " with a bus error" : "") << "\n";
            c.sig(g.status);
        }
        else if (x < 0.7) // incomplete
        {
            g.members = members();
            p["Collection"] = toVal(g.members);
            sim.emitChanged(g.svc, g.path, REDUN, {{"Collection", p["Collection"]}});
            // only reports that carry a status count
            c.log << "collection of " << g.path << " changed\n";
        }
        else if (x < 0.8)
            sim.emitChanged(g.svc, g.path, "xyz.openbmc_project.Control.FanRedundancyX",
                            {{"Status", toVal(r.pick(states))}});
        else
            c.log << signalDS(c, r.pick(ds)) << "\n";
    }
    c.count("redundancy reports and signals", uint64_t(steps));
    c.count("fan samples in a failed group", uint64_t(hits));
    c.count("fans released by a group", uint64_t(clears));
    if (hits) c.nontrivial();
}

// ---------------------------------------------------------------- C23
struct HostWorld
{
    bool on = false;
    bool absent = true;
};
std::string hostState(vp::Rng& r)
{
    return "xyz.openbmc_project.State.Host.HostState." +
           r.of<std::string>({"Running", "Running", "Off", "TransitioningToRunning", "TransitioningToOff",
                              "Standby", "Quiesced", "DiagnosticMode"});
}
void hostOff(Case& c)
{
    auto& r = c.rng;
    auto& sim = Sim::get();
    sim.reset();
    startClock(c);
    vp::Silence sil;
    auto bus = sdbusplus::bus::new_default();
    auto hostBus = sdbusplus::bus::new_default();
    auto hostMatchBus = sdbusplus::bus::new_default();
    constexpr auto SVC = "xyz.openbmc_project.State.Host0";
    constexpr auto PATH = "/xyz/openbmc_project/state/host0";
    bool on = false;
    auto put = [&](const std::string& st, bool signal) {
        sim.services[SVC][PATH][HOSTIF]["CurrentHostState"] = toVal(st);
        sim.services[SVC][PATH][HOSTIF]["RequestedHostTransition"] =
            toVal(std::string("xyz.openbmc_project.State.Host.Transition.On"));
        on = st.ends_with("HostState.Running");
        if (signal)
        {
            std::map<std::string, simbus::Val> ch{{"CurrentHostState", toVal(st)}};
            if (r.chance(0.3))
                ch["RequestedHostTransition"] = toVal(std::string("xyz.openbmc_project.State.Host.Transition.Off"));
            sim.emitChanged(r.chance(0.5) ? SVC : ":1.5", PATH, HOSTIF, ch);
        }
        c.log << "host " << st << "\n";
    };
    if (r.chance(0.7)) put(hostState(r), false);
    auto& mon = HostStateMonitor::getInstance(hostMatchBus);
    if (r.chance(0.3)) put(hostState(r), true); // between the first look and the subscription
    mon.startMonitoring();
    VP_CHECK(c, mon.isPowerOn() == on, "host-start",
             "the host is known as " << (mon.isPowerOn() ? "on" : "off") << " after the start, it is "
                                     << (on ? "on" : "off"));

    std::map<std::string, conf::SensorConfig> cfg;
    std::vector<DS> ds;
    int n = int(r.range(1, 4));
    for (int i = 0; i < n; i++)
    {
        DS s;
        genDS(c, s, i, false);
        s.cfg.ignoreFailIfHostOff = r.chance(0.6);
        cfg[s.name] = s.cfg;
        ds.push_back(s);
    }
    struct Ext
    {
        std::string name, path;
        bool tol = false;
        double v = 0;
    };
    std::vector<Ext> ext(size_t(r.range(1, 3)));
    for (size_t i = 0; i < ext.size(); i++)
    {
        ext[i].name = "ext" + std::to_string(i);
        ext[i].path = "/xyz/openbmc_project/extsensors/temperature/" + ext[i].name;
        ext[i].tol = r.chance(0.6);
        conf::SensorConfig k{};
        k.type = r.of<std::string>({"temp", "margin", "power"});
        k.readPath = ext[i].path;
        k.timeout = 2;
        k.unavailableAsFailed = true;
        k.ignoreFailIfHostOff = ext[i].tol;
        cfg[ext[i].name] = k;
    }
    SensorManager mgr = buildSensors(cfg, bus, hostBus);
    int steps = int(r.of({10, 30, 80})), masked = 0, shown = 0, changes = 0;
    for (int k = 0; k <= steps; k++)
    {
        for (auto& s : ds)
        {
            bool want = s.failed() && !(s.cfg.ignoreFailIfHostOff && !on);
            bool got = mgr.getSensor(s.name)->getFailed();
            masked += s.failed() && !want;
            shown += want;
            VP_CHECK(c, got == want, "host-off-bus-sensor",
                     s.name << " counts as " << (got ? "failed" : "not failed") << "; its own state: "
                            << (s.failed() ? "failed" : "healthy") << ", tolerant: "
                            << s.cfg.ignoreFailIfHostOff << ", host on: " << on);
        }
        for (auto& e : ext)
        {
            bool bad = !std::isfinite(e.v);
            bool want = bad && !(e.tol && !on);
            bool got = mgr.getSensor(e.name)->getFailed();
            masked += bad && !want;
            shown += want;
            VP_CHECK(c, got == want, "host-off-external",
                     e.name << " counts as " << (got ? "failed" : "not failed") << "; value " << num(e.v)
                            << ", tolerant: " << e.tol << ", host on: " << on);
        }
        if (k == steps) break;
        pass(c);
        switch (r.range(0, 5))
        {
            case 0:
            case 1:
                put(hostState(r), true);
                changes++;
                break;
            case 2:
            {
                auto& e = r.pick(ext);
                e.v = r.chance(0.5) ? r.of({vp::NaN, vp::NaN, double(INFINITY), -double(INFINITY)}) : r.coarse(0, 90);
                VP_CHECK(c, sim.ownSet(e.path, VALUE, "Value", toVal(e.v)), "ext-missing",
                         e.path << " is not on the bus");
                break;
            }
            case 3: // about something else
                if (r.chance(0.5))
                    sim.emitChanged("svc.H1",
                                    r.of<std::string>({"/xyz/openbmc_project/state/host1",
                                                       "/xyz/openbmc_project/state/host",
                                                       "/xyz/openbmc_project/state/chassis0"}),
                                    HOSTIF, {{"CurrentHostState", toVal(hostState(r))}});
                else
                    sim.emitChanged(SVC, PATH, HOSTIF,
                                    {{"RequestedHostTransition",
                                      toVal(std::string("xyz.openbmc_project.State.Host.Transition.Running"))}});
                break;
            default:
                c.log << signalDS(c, r.pick(ds)) << "\n";
        }
        c.sig(uint64_t(on));
    }
    c.count("host state changes", uint64_t(changes));
    c.count("failures masked by host off", uint64_t(masked));
    c.count("failures shown", uint64_t(shown));
    if (masked && shown) c.nontrivial();
}

// ---------------------------------------------------------------- C25
void external(Case& c)
{
    auto& r = c.rng;
    auto& sim = Sim::get();
    sim.reset();
    startClock(c);
    vp::Silence sil;
    // kept for the next case of this process, as by the daemon
    static auto& bus = *new auto(sdbusplus::bus::new_default());
    static auto& hostBus = *new auto(sdbusplus::bus::new_default());
    struct Ext
    {
        std::string name, path;
        double v = 0;
        int64_t stamp = 0, timeout = 0;
        bool tol = false;
    };
    std::vector<Ext> ext(size_t(r.range(1, 5)));
    std::map<std::string, conf::SensorConfig> cfg;
    for (size_t i = 0; i < ext.size(); i++)
    {
        auto& e = ext[i];
        e.name = r.of<std::string>({"ext", "a", "zz"}) + std::to_string(i);
        e.path = "/xyz/openbmc_project/extsensors/" + r.of<std::string>({"temperature", "margin", "x/y"}) + "/" + e.name;
        e.timeout = r.chance(0.08) ? r.of<int64_t>({255, 256, 300, 40000, 65535, 65536, 100000, 3000000}) : r.range(0, 9);
        e.tol = r.chance(0.2); // the host state is never reported here: off
        conf::SensorConfig k{};
        k.type = r.of<std::string>({"temp", "margin", "power", "powersum"});
        k.readPath = e.path;
        k.timeout = e.timeout;
        k.ignoreFailIfHostOff = e.tol;
        k.unavailableAsFailed = r.chance(0.5);
        k.min = r.range(0, 2);
        k.max = r.range(0, 200);
        cfg[e.name] = k;
        e.stamp = vp::clock::wall();
    }
    SensorManager mgr = buildSensors(cfg, bus, hostBus);
    int steps = int(r.of({10, 30, 100})), bad = 0;
    for (int k = 0; k <= steps; k++)
    {
        for (auto& e : ext)
        {
            Sensor* s = mgr.getSensor(e.name);
            if (r.chance(0.3)) pass(c);
            auto g = s->read();
            checkRead(c, "external", g, e.v, e.v, e.stamp, e.name);
            VP_CHECK(c, s->getName() == e.name && s->getTimeout() == e.timeout, "external-config",
                     e.name << " is named " << s->getName() << " with a timeout of " << s->getTimeout());
            bool f = s->getFailed(), want = !std::isfinite(e.v) && !e.tol;
            bad += want;
            VP_CHECK(c, f == want, "external-failed",
                     e.name << " counts as " << (f ? "failed" : "not failed") << " with " << num(e.v));
            simbus::Val v;
            VP_CHECK(c, sim.ownGet(e.path, VALUE, "Value", v), "external-missing",
                     e.path << " is not on the bus");
            VP_CHECK(c, vp::close(v.d, e.v, 0, 0), "external-bus",
                     e.path << " shows " << num(v.d) << " instead of " << num(e.v));
        }
        if (k == steps) break;
        pass(c);
        auto& e = r.pick(ext);
        if (r.chance(0.8))
        {
            double v = r.chance(0.2) ? e.v : reading(r, false);
            VP_CHECK(c, sim.ownSet(e.path, VALUE, "Value", toVal(v)), "external-refused",
                     "a write of " << num(v) << " to " << e.path << " was refused");
            e.v = v;
            e.stamp = vp::clock::wall();
            c.log << e.name << " = " << num(v) << "\n";
            c.sig(v);
        }
        else
            sim.ownSet(e.path, VALUE, r.of<std::string>({"MaxValue", "MinValue"}), toVal(r.coarse(0, 90)));
    }
    c.count("external writes and samples", uint64_t(steps));
    c.count("external samples failed", uint64_t(bad));
    if (bad || steps > 20) c.nontrivial();
}

// ---------------------------------------------------------------- C28
std::string digits(vp::Rng& r, int64_t v)
{
    std::string t = std::to_string(v);
    if (r.chance(0.1)) t.insert(v < 0, size_t(r.range(1, 3)), '0'); // decimal all the same
    return t;
}
void sysfsRead(Case& c)
{
    auto& r = c.rng;
    startClock(c);
    vp::Silence sil;
    struct F
    {
        std::string cfgPath, path, dir;
        bool ok = true;
        int64_t v = 0, stamp = 0;
        std::unique_ptr<ReadInterface> s;
    };
    std::vector<F> fl(size_t(r.range(1, 4)));
    auto bad = [&]() {
        return r.of<std::string>({"", "\n", "abc\n", "-", "+\n", "99999999999999999999\n", "-99999999999999999999",
                                  "nan\n", "inf\n", " \t\n", ".5\n", "x12\n"});
    };
    // a file of sysfs keeps its times when its value changes
    bool keeps = r.chance(0.6);
    auto still = [&](const std::string& p) {
        struct timespec t[2] = {{1700000000, 0}, {1700000000, 0}};
        if (keeps) utimensat(AT_FDCWD, p.c_str(), t, 0);
    };
    auto put = [&](F& f) {
        double x = r.unit();
        if (x < 0.65)
        {
            f.v = r.of<int64_t>({0, -1, 1, 42000, -5000, 255, 12345, INT64_C(9007199254740991), r.range(-100000, 100000)});
            f.ok = true;
            vp::mkdirs(f.dir);
            if (!fs::is_regular_file(f.path) || r.chance(0.3)) fs::remove_all(f.path);
            wf(f.path, r.of<std::string>({"", "", " ", "\n"}) + digits(r, f.v) +
                                      r.of<std::string>({"\n", "\n", "", " \n", "\n7\n"}));
            still(f.path);
            c.log << f.path << " holds " << f.v << "\n";
        }
        else if (x < 0.85)
        {
            f.ok = false;
            std::string t = bad();
            vp::mkdirs(f.dir);
            if (!fs::is_regular_file(f.path) || r.chance(0.3)) fs::remove_all(f.path);
            wf(f.path, t);
            still(f.path);
            c.log << f.path << " holds \"" << t << "\"\n";
        }
        else if (x < 0.95)
        {
            f.ok = false;
            fs::remove_all(f.path);
            c.log << f.path << " removed\n";
        }
        else
        {
            f.ok = false;
            fs::remove_all(f.path);
            fs::create_directories(f.path);
            c.log << f.path << " is a folder\n";
        }
    };
    for (size_t i = 0; i < fl.size(); i++)
    {
        auto& f = fl[i];
        std::string base = c.dir() + "/sys/class/dev" + std::to_string(i);
        if (r.chance(0.5))
        {
            f.dir = base + "/hwmon/" + r.of<std::string>({"hwmon3", "hwmon12", "x"});
            f.cfgPath = base + "/hwmon/**/temp1_input";
            f.path = f.dir + "/temp1_input";
        }
        else
        {
            f.dir = base;
            f.cfgPath = f.path = base + "/in" + std::to_string(i);
        }
        vp::mkdirs(f.dir);
        put(f);
        f.s = std::make_unique<SysFsRead>(f.cfgPath);
    }
    int steps = int(r.of({10, 30, 80})), goods = 0, bads = 0, moved = 0;
    for (int k = 0; k < steps; k++)
    {
        if (r.chance(0.8)) pass(c);
        if (r.chance(0.6)) put(r.pick(fl));
        if (auto& f = r.pick(fl); r.chance(0.06))
        {
            // set up again, as on a reload, maybe after the device got another number
            if (f.cfgPath != f.path && r.chance(0.7))
            {
                fs::remove_all(f.dir);
                f.dir = f.dir.substr(0, f.dir.rfind('/') + 1) + r.of<std::string>({"hwmon3", "hwmon12", "x", "hwmon0"});
                f.path = f.dir + "/temp1_input";
                vp::mkdirs(f.dir);
                put(f);
                moved++;
            }
            c.log << "set up again with " << f.path << "\n";
            f.s = std::make_unique<SysFsRead>(f.cfgPath);
            f.stamp = 0;
        }
        for (auto& f : fl)
        {
            if (r.chance(0.3)) continue;
            auto g = f.s->read();
            VP_CHECK(c, !f.s->getFailed(), "sysfs-failed", f.cfgPath << " counts as failed");
            if (f.ok) f.stamp = vp::clock::wall();
            double want = f.ok ? double(f.v) : vp::NaN;
            checkRead(c, "sysfs", g, want, want, f.stamp, f.cfgPath);
            c.sig(want);
            (f.ok ? goods : bads)++;
        }
    }
    c.count("wildcards resolved again after a change", uint64_t(moved));
    c.count("sysfs reads good", uint64_t(goods));
    c.count("sysfs reads without a reading", uint64_t(bads));
    if (goods && bads) c.nontrivial();
}

// ---------------------------------------------------------------- C11
struct FanOut
{
    std::string name, cfgPath, path, svc;
    bool bus = false, percent = false;
    int64_t mn = 0, mx = 0;
    bool any = false;      // something was written
    bool lost = false;     // the last write failed
    bool lostForced = false; // with a forced one among them
    int64_t raw = 0;       // and is in effect
    Sensor* s = nullptr;
};
int64_t rawOf(const FanOut& f, double v)
{
    if (!f.percent) return int64_t(v);
    double range = double(f.mx) - double(f.mn);
    return int64_t(range * v + double(f.mn));
}
void fanWrite(Case& c)
{
    auto& r = c.rng;
    auto& sim = Sim::get();
    sim.reset();
    startClock(c);
    vp::Silence sil;
    auto bus = sdbusplus::bus::new_default();
    auto hostBus = sdbusplus::bus::new_default();
    std::map<std::string, conf::SensorConfig> cfg;
    std::vector<FanOut> fans(size_t(r.range(1, 5)));
    for (size_t i = 0; i < fans.size(); i++)
    {
        auto& f = fans[i];
        f.name = "fan" + std::to_string(i);
        f.bus = r.chance(0.6);
        f.mn = r.of<int64_t>({0, 0, 0, 20, 50});
        f.mx = r.of<int64_t>({0, 0, 255, 255, 100, 10000, 1, 131072, 65536 * 300, INT64_C(3) << 33});
        if (f.mx != 0 && f.mx <= f.mn) f.mn = 0;
        f.percent = f.mx > 0;
        conf::SensorConfig k{};
        k.type = "fan";
        k.readPath = c.dir() + "/sys/in/fan" + std::to_string(i);
        k.min = f.mn;
        k.max = f.mx;
        wf(k.readPath, "5000\n");
        if (f.bus)
        {
            f.cfgPath = f.path = "/xyz/openbmc_project/control/fanpwm/" + f.name;
            f.svc = "svc.Fan" + std::to_string(r.range(0, 1));
            sim.services[f.svc][f.path][PWM]["Target"] = toVal(uint64_t(77));
        }
        else if (r.chance(0.4))
        {
            std::string base = c.dir() + "/sys/out" + std::to_string(i);
            f.path = base + "/hwmon7/pwm1";
            f.cfgPath = base + "/**/pwm1";
            wf(f.path, "99");
        }
        else
        {
            f.cfgPath = f.path = c.dir() + "/sys/out/pwm" + std::to_string(i);
            wf(f.path, "99");
        }
        k.writePath = f.cfgPath;
        cfg[f.name] = k;
        c.log << f.name << " -> " << f.cfgPath << " min=" << f.mn << " max=" << f.mx << "\n";
    }
    SensorManager mgr = buildSensors(cfg, bus, hostBus);
    for (auto& f : fans) f.s = mgr.getSensor(f.name);
    std::vector<simbus::SetRec> sets;
    sim.onSet = [&](const simbus::SetRec& s) { sets.push_back(s); };
    std::vector<std::pair<std::string, std::string>> tried;
    sim.onCall = [&](const simbus::Msg& m) {
        if (m.member == "Set") tried.push_back({m.dest, m.path});
    };
    int steps = int(r.of({10, 40, 120})), changed = 0, same = 0, failed = 0;
    std::map<std::string, double> prev;
    for (int k = 0; k < steps; k++)
    {
        pass(c);
        auto& f = r.pick(fans);
        double v;
        double top = f.percent ? 1.0 : 255.0;
        // steps of a power of two, which narrower integers do not see
        double hop = double(INT64_C(1) << r.of({8, 16, 24, 32, 33})) / (f.percent ? double(f.mx - f.mn) : 1.0);
        switch (r.range(0, 7))
        {
            case 0: v = 0; break;
            case 1: v = top; break;
            case 6:
            case 7:
                v = prev.count(f.name) ? prev[f.name] : r.unit() * top;
                v = v + hop <= top ? v + hop : v - hop >= 0 ? v - hop : v;
                break;
            case 2: v = prev.count(f.name) ? prev[f.name] : top / 2; break;
            case 3: v = prev.count(f.name) ? std::min(top, prev[f.name] + top * 0.001) : top / 3; break;
            case 4: v = r.unit() * top; break;
            default: v = double(r.range(0, 100)) / 100 * top;
        }
        prev[f.name] = v;
        bool force = r.chance(0.3);
        bool fail = f.bus && r.chance(0.2);
        // the write may be refused or time out
        sim.fault = fail ? std::function<std::string(const simbus::Msg&)>([](const simbus::Msg& m) {
            return m.member == "Set" ? std::string("org.freedesktop.DBus.Error.Timeout") : std::string();
        }) : nullptr;
        std::map<std::string, std::string> before;
        for (auto& o : fans)
            if (!o.bus) before[o.path] = vp::readFile(o.path);
        sets.clear();
        tried.clear();
        int64_t raw = rawOf(f, v);
        int64_t written = -12345;
        // a file written by other hands must be put right by the next command
        if (!f.bus && r.chance(0.2)) wf(f.path, "1"), before[f.path] = "1";
        if (r.chance(0.7))
            f.s->write(v, force, &written);
        else
        {
            force = false;
            f.s->write(v);
        }
        sim.fault = nullptr;
        c.log << f.name << " <- " << num(v) << (force ? " forced" : "") << (fail ? " failing" : "")
              << " raw " << raw << " reported " << written << "\n";
        c.sig(v);
        for (auto& o : fans)
            if (!o.bus && &o != &f)
                VP_CHECK(c, vp::readFile(o.path) == before[o.path], "wrong-fan",
                         "a command to " << f.name << " changed " << o.path);
        for (auto& [d, p] : tried)
            VP_CHECK(c, d == f.svc && p == f.path, "wrong-fan",
                     "a command to " << f.name << " was sent to " << d << " " << p);
        if (!f.bus)
        {
            VP_CHECK(c, tried.empty(), "wrong-fan", "a file output went to the bus");
            std::string t = vp::readFile(f.path);
            VP_CHECK(c, t == std::to_string(raw), "sysfs-raw",
                     f.name << " range " << f.mn << ".." << f.mx << " commanded " << num(v) << ": file has \""
                            << t << "\", expected " << raw);
            changed++;
            continue;
        }
        // what a forced write was to put right is still to be put right after it failed
        bool due = force || !f.any || raw != f.raw || f.lostForced;
        bool mayBe = due || f.lost; // it is open what a failed write left there
        VP_CHECK(c, tried.size() <= 1, "extra-write", f.name << " was written " << tried.size() << " times");
        VP_CHECK(c, !(due && tried.empty()), "missed-write",
                 f.name << " commanded " << num(v) << " (raw " << raw << ", in effect "
                        << (f.any ? std::to_string(f.raw) : "nothing") << (force ? ", forced" : "")
                        << (f.lostForced ? ", forced before in vain" : "") << ") was not written");
        VP_CHECK(c, mayBe || tried.empty(), "extra-write", f.name << " was rewritten with the same raw value " << raw);
        if (!tried.empty())
        {
            f.lostForced = fail && (force || f.lostForced);
            f.lost = fail;
        }
        if (due && !fail)
        {
            VP_CHECK(c, sets.size() == 1 && sets[0].iface == PWM && sets[0].prop == "Target", "bus-raw",
                     f.name << ": the Target was not set");
            VP_CHECK(c, sets[0].value.t == 't' && sets[0].value.u == uint64_t(raw), "bus-raw",
                     f.name << " range " << f.mn << ".." << f.mx << " commanded " << num(v) << ": set to "
                            << sets[0].value.u << ", expected " << raw);
            f.any = true;
            f.raw = raw;
            changed++;
        }
        failed += due && fail;
        same += !due;
        if (written != -12345 && f.any)
            VP_CHECK(c, written == f.raw, "reported-raw",
                     f.name << " reports raw " << written << ", " << f.raw << " is in effect");
    }
    sim.onSet = nullptr;
    sim.onCall = nullptr;
    c.count("fan writes in effect", uint64_t(changed));
    c.count("fan writes failed", uint64_t(failed));
    c.count("redundant commands", uint64_t(same));
    if (changed > 2) c.nontrivial();
}

// ---------------------------------------------------------------- C16
void buildAll(Case& c)
{
    auto& r = c.rng;
    auto& sim = Sim::get();
    sim.reset();
    startClock(c);
    vp::Silence sil;
    // kept for the next case of this process, as by the daemon
    static auto& bus = *new auto(sdbusplus::bus::new_default());
    static auto& hostBus = *new auto(sdbusplus::bus::new_default());
    struct S
    {
        int kind; // 0 sysfs 1 bus 2 external
        std::string name;
        conf::SensorConfig cfg{};
        DS d;
        std::string file;
        int64_t fv = 0;
        double ev = 0;
        int64_t stamp = 0;
        FanOut out;
        int outKind = 0; // 0 none 1 sysfs 2 bus
    };
    int n = int(r.range(1, 8));
    std::vector<S> ss;
    std::map<std::string, conf::SensorConfig> cfg;
    auto fileOf = [&](const std::string& n2) { return c.dir() + "/sys/in/" + n2; };
    for (int i = 0; i < n; i++)
    {
        S s;
        s.kind = int(r.range(0, 2));
        if (s.kind == 1)
        {
            genDS(c, s.d, i, false);
            s.name = s.d.name;
            s.cfg = s.d.cfg;
        }
        else
        {
            s.name = r.of<std::string>({"s", "fan", "temp1_", "x", "ext", "sys", "extsensors", "openbmc_project", "None"}) + std::to_string(i);
            s.cfg.type = r.of<std::string>({"temp", "margin", "power", "powersum", "fan"});
            if (s.kind == 2 && s.cfg.type == "fan") s.cfg.type = "temp";
            s.cfg.timeout = r.chance(0.08) ? r.of<int64_t>({255, 256, 300, 40000, 65535, 65536, 100000, 3000000}) : r.range(0, 30);
            s.cfg.ignoreFailIfHostOff = r.chance(0.3);
            s.cfg.unavailableAsFailed = true;
            if (s.kind == 0)
            {
                s.fv = r.range(-1000, 100000);
                s.file = fileOf(s.name);
                wf(s.file, std::to_string(s.fv) + "\n");
                s.cfg.readPath = s.file;
                if (r.chance(0.3))
                {
                    s.file = c.dir() + "/sys/w" + std::to_string(i) + "/hwmon1/in";
                    wf(s.file, std::to_string(s.fv) + "\n");
                    s.cfg.readPath = c.dir() + "/sys/w" + std::to_string(i) + "/**/in";
                }
            }
            else
                s.cfg.readPath = "/xyz/openbmc_project/extsensors/temperature/" + s.name;
        }
        s.cfg.min = r.of<int64_t>({0, 0, 10});
        s.cfg.max = r.of<int64_t>({0, 255, 100});
        s.stamp = vp::clock::wall();
        // outputs: also configured for sensors that must not be written
        s.outKind = int(r.range(0, 2));
        s.out.mn = s.cfg.min;
        s.out.mx = s.cfg.max;
        s.out.percent = s.cfg.max > 0;
        if (s.outKind == 1)
        {
            s.out.path = c.dir() + "/sys/out/" + s.name;
            wf(s.out.path, "keep");
            s.cfg.writePath = s.out.path;
        }
        else if (s.outKind == 2)
        {
            s.out.path = "/xyz/openbmc_project/control/fanpwm/" + s.name;
            s.out.svc = "svc.Out" + std::to_string(r.range(0, 1));
            sim.services[s.out.svc][s.out.path][PWM]["Target"] = toVal(uint64_t(7777));
            s.cfg.writePath = s.out.path;
        }
        else
            s.cfg.writePath = r.of<std::string>({"", "None"});
        cfg[s.name] = s.cfg;
        c.log << s.name << " " << s.cfg.type << " " << s.cfg.readPath << " -> " << s.cfg.writePath << "\n";
        c.sig(uint64_t(s.kind * 3 + s.outKind));
        ss.push_back(std::move(s));
    }
    // a set-up that cannot succeed
    std::string broken;
    if (r.chance(0.35))
    {
        conf::SensorConfig k{};
        k.unavailableAsFailed = true;
        k.type = "fan";
        k.readPath = fileOf("brk");
        wf(k.readPath, "1\n");
        switch (r.range(0, 6))
        {
            case 0:
                broken = "unknown type";
                k.type = r.of<std::string>({"Fan", "voltage", "", "temperature"});
                break;
            case 1:
                broken = "external fan";
                k.readPath = "/xyz/openbmc_project/extsensors/fan/brk";
                break;
            case 2:
                broken = "absent output";
                k.writePath = "/xyz/openbmc_project/control/fanpwm/absent";
                k.max = r.of<int64_t>({0, 255});
                break;
            case 3:
                if (!HANDLE_MISSING_OBJECT_PATHS)
                {
                    broken = "absent input";
                    k.type = r.of<std::string>({"fan", "temp", "margin"});
                    k.readPath = "/xyz/openbmc_project/sensors/temperature/absent";
                }
                break;
            case 4:
                broken = "unreadable input";
                k.type = r.of<std::string>({"fan", "temp", "margin"});
                k.readPath = "/xyz/openbmc_project/sensors/temperature/brk";
                sim.services["svc.B"][k.readPath][VALUE]["Value"] = toVal(3.0);
                sim.fault = [p = k.readPath](const simbus::Msg& m) -> std::string {
                    return m.path == p && m.member == "GetAll" && m.body[0].s == VALUE
                               ? "org.freedesktop.DBus.Error.NoReply"
                               : "";
                };
                break;
            case 5:
                broken = "unknown type on the bus";
                k.type = "current";
                k.readPath = "/xyz/openbmc_project/sensors/current/brk";
                sim.services["svc.B"][k.readPath][VALUE]["Value"] = toVal(3.0);
                break;
            default:
                broken = "folder of a wildcard absent";
                k.readPath = c.dir() + "/sys/none/**/in";
        }
        if (!broken.empty()) cfg[r.of<std::string>({"AAbrk", "zzbrk", "m"})] = k;
    }
    std::optional<SensorManager> mgr;
    std::string what;
    try
    {
        mgr.emplace(buildSensors(cfg, bus, hostBus));
    }
    catch (const std::exception& e)
    {
        what = e.what();
    }
    if (!broken.empty())
    {
        VP_CHECK(c, !mgr, "not-refused", "a configuration with " << broken << " was loaded");
        c.count("set-ups refused: " + broken);
        // the load is tried again without it
        for (auto k : {"AAbrk", "zzbrk", "m"}) cfg.erase(k);
        sim.fault = nullptr;
        mgr.emplace(buildSensors(cfg, bus, hostBus));
    }
    else
        VP_CHECK(c, mgr.has_value(), "refused", "a good set of sensors was refused: " << what);
    std::vector<simbus::SetRec> sets;
    sim.onSet = [&](const simbus::SetRec& s) { sets.push_back(s); };
    int steps = int(r.of({10, 30, 60})), reads = 0, writes = 0;
    for (int k = 0; k < steps; k++)
    {
        pass(c);
        // the sources change
        auto& s = r.pick(ss);
        if (s.kind == 0)
        {
            s.fv = r.range(-1000, 100000);
            wf(s.file, std::to_string(s.fv) + "\n");
        }
        else if (s.kind == 1)
            signalDS(c, s.d);
        else
        {
            s.ev = r.coarse(-5, 120);
            sim.ownSet(s.cfg.readPath, VALUE, "Value", toVal(s.ev));
            s.stamp = vp::clock::wall();
        }
        for (auto& q : ss)
        {
            Sensor* p = mgr->getSensor(q.name);
            VP_CHECK(c, p && p->getName() == q.name, "name", q.name << " is missing or misnamed");
            VP_CHECK(c, p->getTimeout() == q.cfg.timeout, "timeout",
                     q.name << " has timeout " << p->getTimeout() << ", configured " << q.cfg.timeout);
            VP_CHECK(c, p->getIgnoreFailIfHostOff() == q.cfg.ignoreFailIfHostOff, "option",
                     q.name << " lost ignoreFailIfHostOff");
            auto g = p->read();
            if (q.kind == 0) checkRead(c, "source", g, double(q.fv), double(q.fv), vp::clock::wall(), q.name);
            if (q.kind == 1)
            {
                checkRead(c, "source", g, q.d.value, q.d.unscaled, q.d.stamp, q.name);
                // the host state is never reported here: off
                bool want = q.d.failed() && !q.cfg.ignoreFailIfHostOff;
                VP_CHECK(c, p->getFailed() == want, "source-failed", q.name << " failed state is not " << want);
            }
            if (q.kind == 2) checkRead(c, "source", g, q.ev, q.ev, q.stamp, q.name);
            reads++;
        }
        // and one sensor is written
        auto& o = r.pick(ss);
        double v = o.out.percent ? r.unit() : double(r.range(0, 255));
        std::map<std::string, std::string> before;
        for (auto& q : ss)
        {
            if (q.outKind == 1) before[q.out.path] = vp::readFile(q.out.path);
            if (q.kind == 0) before[q.file] = vp::readFile(q.file);
        }
        sets.clear();
        bool fan = o.cfg.type == "fan";
        try
        {
            mgr->getSensor(o.name)->write(v, true, nullptr);
        }
        catch (const std::exception&)
        {
            VP_CHECK(c, !fan, "write-throws", "writing fan " << o.name << " throws");
        }
        int64_t raw = rawOf(o.out, v);
        writes++;
        for (auto& [p, t] : before)
        {
            std::string want = fan && o.outKind == 1 && p == o.out.path ? std::to_string(raw) : t;
            VP_CHECK(c, vp::readFile(p) == want, "write-target",
                     "after writing " << o.name << " (" << o.cfg.type << "), " << p << " holds "
                                      << vp::readFile(p) << ", expected " << want);
        }
        if (fan && o.outKind == 2)
            VP_CHECK(c, sets.size() == 1 && sets[0].path == o.out.path && sets[0].service == o.out.svc &&
                            sets[0].value.u == uint64_t(raw),
                     "write-target", "writing " << o.name << " did not set " << o.out.path << " to " << raw);
        else
            VP_CHECK(c, sets.empty(), "write-target",
                     "writing " << o.name << " (" << o.cfg.type << ") set " << sets[0].path);
    }
    sim.onSet = nullptr;
    c.count("readings compared with their source", uint64_t(reads));
    c.count("writes", uint64_t(writes));
    if (n > 1) c.nontrivial();
}

// ---------------------------------------------------------------- C18
void ipmiCmds(Case& c)
{
    auto& r = c.rng;
    auto& sim = Sim::get();
    sim.reset();
    vp::Silence sil;
    constexpr auto SVC = "xyz.openbmc_project.State.FanCtrl";
    auto pathOf = [](int z) { return "/xyz/openbmc_project/settings/fanctrl/zone" + std::to_string(z); };
    struct Z
    {
        bool manual, failsafe;
    };
    std::map<int, Z> zs;
    int n = int(r.range(0, 6));
    for (int i = 0; i < n; i++)
        zs[int(r.of<int64_t>({0, 1, 2, 9, 10, 100, 127, 128, 129, 200, 254, 255, r.range(0, 255)}))] = {
            r.chance(0.5), r.chance(0.5)};
    for (auto& [z, s] : zs)
    {
        sim.services[SVC][pathOf(z)][MODE]["Manual"] = toVal(s.manual);
        sim.services[SVC][pathOf(z)][MODE]["FailSafe"] = toVal(s.failsafe);
        sim.services[SVC][pathOf(z)]["xyz.openbmc_project.Object.Enable"]["Enabled"] = toVal(true);
    }
    // decoys
    sim.services[SVC][pathOf(999)][MODE]["Manual"] = toVal(false);
    sim.services["svc.Other"][pathOf(0)][MODE]["Manual"] = toVal(false);
    std::vector<simbus::SetRec> sets;
    sim.onSet = [&](const simbus::SetRec& s) { sets.push_back(s); };
    auto& hs = oem::mutableRouter()->handlers;
    auto it = hs.find(std::pair<oem::Number, uint8_t>(oem::obmcOemNumber, oem::Cmd::fanManualCmd));
    VP_CHECK(c, it != hs.end(), "not-registered", "no handler for the manual command");
    VP_CHECK(c, hs.size() == 1, "not-registered", hs.size() << " handlers were registered");
    int steps = int(r.of({10, 40, 120})), ok = 0, refused = 0;
    for (int k = 0; k < steps; k++)
    {
        // the outside world changes a zone
        if (!zs.empty() && r.chance(0.4))
        {
            auto z = std::next(zs.begin(), r.range(0, int64_t(zs.size()) - 1));
            z->second = {r.chance(0.5), r.chance(0.5)};
            sim.services[SVC][pathOf(z->first)][MODE]["Manual"] = toVal(z->second.manual);
            sim.services[SVC][pathOf(z->first)][MODE]["FailSafe"] = toVal(z->second.failsafe);
        }
        size_t len = size_t(r.of<int64_t>({0, 1, 2, 2, 2, 3, 3, 3, 4, r.range(5, 40)}));
        auto req = std::make_unique<uint8_t[]>(len); // exact size: the sanitizer sees a read beyond
        for (size_t i = 0; i < len; i++) req[i] = uint8_t(r.range(0, 255));
        if (len > 0 && r.chance(0.85)) req[0] = uint8_t(r.range(0, 2));
        if (len > 1 && !zs.empty() && r.chance(0.7))
            req[1] = uint8_t(std::next(zs.begin(), r.range(0, int64_t(zs.size()) - 1))->first);
        if (len > 2) req[2] = uint8_t(r.of<int64_t>({0, 0, 1, 1, 2, 128, 255}));
        auto reply = std::make_unique<uint8_t[]>(1);
        reply[0] = 0xA5;
        size_t dl = len;
        bool fault = r.chance(0.15);
        sim.fault = fault ? std::function<std::string(const simbus::Msg&)>(
                                [](const simbus::Msg&) { return "org.freedesktop.DBus.Error.NoReply"; })
                          : nullptr;
        sets.clear();
        ::ipmi::Cc rc = it->second(oem::Cmd::fanManualCmd, req.get(), reply.get(), &dl);
        sim.fault = nullptr;
        std::ostringstream d;
        d << "request of " << len << " bytes";
        for (size_t i = 0; i < std::min<size_t>(len, 3); i++) d << " " << int(req[i]);
        c.log << d.str() << " -> " << int(rc) << "\n";
        for (size_t i = 0; i < std::min<size_t>(len, 3); i++) c.sig(uint64_t(req[i]));
        int cmd = len > 0 ? req[0] : -1;
        bool good = len >= 2 && (cmd == 0 || cmd == 2 || (cmd == 1 && len >= 3)) && zs.count(req[1]) && !fault;
        if (!good)
        {
            VP_CHECK(c, rc != 0, "not-refused", d.str() << " was accepted" << (fault ? " despite a bus error" : ""));
            VP_CHECK(c, sets.empty(), "refused-but-set", d.str() << " changed " << sets[0].path);
            refused++;
            continue;
        }
        ok++;
        auto& z = zs[req[1]];
        VP_CHECK(c, rc == 0, "refused", d.str() << " was refused with " << int(rc));
        if (cmd == 1)
        {
            bool v = req[2] != 0;
            VP_CHECK(c, sets.size() == 1 && sets[0].service == SVC && sets[0].path == pathOf(req[1]) &&
                            sets[0].iface == MODE && sets[0].prop == "Manual" && sets[0].value.t == 'b' &&
                            bool(sets[0].value.i) == v,
                     "set-wrong", d.str() << " did not set exactly Manual of zone " << int(req[1]) << " to " << v);
            z.manual = v;
        }
        else
        {
            VP_CHECK(c, sets.empty(), "get-sets", d.str() << " changed a property");
            bool want = cmd == 0 ? z.manual : z.failsafe;
            VP_CHECK(c, dl == 1, "reply-length", d.str() << " replies " << dl << " bytes");
            VP_CHECK(c, reply[0] == (want ? 1 : 0), "reply",
                     d.str() << " replies " << int(reply[0]) << ", the zone has " << want);
        }
        for (auto& [q, s] : zs)
            VP_CHECK(c, bool(sim.services[SVC][pathOf(q)][MODE]["Manual"].i) == s.manual, "other-zone",
                     d.str() << " changed zone " << q);
    }
    sim.onSet = nullptr;
    c.count("ipmi requests served", uint64_t(ok));
    c.count("ipmi requests refused", uint64_t(refused));
    if (ok && refused) c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
    return vp::run(argc, argv,
                   {
                       {"dbus_sensor", dbusSensor, 6000, 200000, 200},
                       {"redundancy", redundancy, 800, 20000, 1},
                       {"host_off", hostOff, 800, 20000, 1},
                       {"external", external, 800, 20000, 5},
                       {"sysfs_read", sysfsRead, 1500, 30000, 100},
                       {"fan_write", fanWrite, 1500, 30000, 100},
                       {"build_all", buildAll, 800, 20000, 5},
                       {"ipmi", ipmiCmds, 4000, 100000, 200},
                   });
}
