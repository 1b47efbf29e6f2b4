// The failsafe log (C19): the logger alone against a tolerant model, the
// routing of sensors to zones, and whole zones over real sensors.
#include "config.h"
#include "failsafeloggers/builder.hpp"
#include "failsafeloggers/failsafe_logger.hpp"
#include "failsafeloggers/failsafe_logger_utility.hpp"
#include "hoststatemonitor.hpp"
#include "pid/builder.hpp"
#include "pid/pidloop.hpp"
#include "pid/tuning.hpp"
#include "pid/zone_interface.hpp"
#include "sensors/builder.hpp"
#include "sensors/manager.hpp"
#include "simbus/simbus.hpp"
#include "vp.hpp"

#include <boost/asio/io_context.hpp>
#include <boost/asio/steady_timer.hpp>

#include <deque>
#include <iostream>
#include <set>

using namespace pid_control;
using simbus::Sim;
using simbus::toVal;
using vp::Case;
using vp::num;
using vp::clock::ms;
using vp::clock::sec;

namespace
{
constexpr auto VALUE = "xyz.openbmc_project.Sensor.Value";
constexpr auto CRIT = "xyz.openbmc_project.Sensor.Threshold.Critical";
constexpr auto AVAIL = "xyz.openbmc_project.State.Decorator.Availability";
constexpr auto OPER = "xyz.openbmc_project.State.Decorator.OperationalStatus";
constexpr auto HOSTIF = "xyz.openbmc_project.State.Host";

struct Line
{
    int64_t zone;
    bool in; // is in failsafe, else leaves it
    std::string loc, reason, text;
};
// the failsafe messages among the daemon's output
std::vector<Line> lines(const std::string& t)
{
    std::vector<Line> r;
    std::istringstream is(t);
    for (std::string l; std::getline(is, l);)
    {
        if (l.find("failsafe mode.") == std::string::npos) continue;
        Line x;
        x.text = l;
        auto a = l.find('`'), b = l.find('`', a + 1);
        if (l.rfind("Zone `", 0) || b == std::string::npos)
        {
            x.zone = -1;
            r.push_back(x);
            continue;
        }
        x.zone = std::stoll(l.substr(a + 1, b - a - 1));
        x.in = l.find("` is in failsafe mode.", b) == b;
        if (!x.in && l.find("` leaves failsafe mode.", b) != b) x.zone = -1;
        const std::string at = "With update at `";
        auto p = l.find(at, b);
        if (p == std::string::npos) x.zone = -1;
        else
        {
            p += at.size();
            auto q = l.find("`: ", p);
            if (q == std::string::npos) x.zone = -1;
            else
            {
                x.loc = l.substr(p, q - p);
                x.reason = l.substr(q + 3);
            }
        }
        r.push_back(x);
    }
    return r;
}

// What must and what may be printed.  Reports that say nothing (a zone that
// stays out of failsafe) may or may not use up the second's allowance.
struct Model
{
    int64_t id = 0;
    size_t limit = 20;
    bool state = false;
    std::set<std::pair<std::string, std::string>> seen; // in this state
    std::deque<int64_t> printed, silent;                // ms
    bool full = false; // the last report met a full second
    enum { MUST, MAY, NOT };
    int report(bool st, const std::string& loc, const std::string& reason)
    {
        int64_t now = vp::clock::mono() / ms;
        // to the millisecond, the ends of the second are open
        while (!printed.empty() && now - printed.front() > 1001) printed.pop_front();
        while (!silent.empty() && now - silent.front() > 1001) silent.pop_front();
        size_t sure = 0;
        for (auto t : printed) sure += now - t <= 998;
        full = sure >= limit;
        bool was = state;
        if (st != state) seen.clear();
        state = st;
        if (!st && !was)
        {
            silent.push_back(now);
            return NOT;
        }
        if (seen.count({loc, reason})) return NOT;
        if (full) return NOT;
        return printed.size() + silent.size() >= limit ? MAY : MUST;
    }
    void did(const std::string& loc, const std::string& reason)
    {
        seen.insert({loc, reason});
        printed.push_back(vp::clock::mono() / ms);
    }
};

void startClock(Case& c)
{
    vp::clock::enable(true);
    vp::clock::set(1600000000 * sec + c.rng.range(0, 999999999), 1000 * sec + c.rng.range(0, 999999999));
}
void step(Case& c)
{
    auto& r = c.rng;
    int64_t d = r.of<int64_t>({0, 0, 1, 5, 20, 50, 200, 500, 900, 999, 1000, 1001, 3000});
    vp::clock::advance(d * ms);
    // the wall clock is set to another time now and then
    if (r.chance(0.02)) vp::clock::advanceWall(r.of<int64_t>({-3600, -1, 1, 5, 86400}) * sec);
}

void judge(Case& c, Model& m, int verdict, const std::vector<Line>& got, bool st, const std::string& loc,
           const std::string& reason)
{
    std::string what = VP_STR("zone " << m.id << ", limit " << m.limit << ", report " << (st ? "in" : "out of") << " failsafe, '" << loc << "', '" << reason << "'");
    VP_CHECK(c, got.size() <= 1, "more-than-one-line", what << ": " << got.size() << " lines");
    if (verdict == Model::NOT)
        VP_CHECK(c, got.empty(), m.seen.count({loc, reason}) ? "repeated" : m.full ? "rate-exceeded" : "uncalled-for",
                 what << " printed: " << (got.empty() ? "" : got[0].text) << " (" << m.printed.size() << " lines in the last second)");
    if (verdict == Model::MUST)
        VP_CHECK(c, !got.empty(), "not-logged", what << " printed nothing (" << m.printed.size() << " lines in the last second, " << m.silent.size() << " silent reports)");
    if (got.empty())
    {
        if (verdict == Model::NOT && m.full && !m.seen.count({loc, reason})) c.count("messages held back by the limit");
        else if (verdict == Model::NOT && st) c.count("repeats held back");
        return;
    }
    auto& l = got[0];
    VP_CHECK(c, l.zone == m.id && l.loc == loc && l.reason == reason, "wrong-text", what << " printed: " << l.text);
    VP_CHECK(c, l.in == st, "wrong-wording", what << " printed: " << l.text);
    m.did(loc, reason);
    c.count(st ? "'is in failsafe' lines" : "'leaves failsafe' lines");
}

void logUnit(Case& c)
{
    auto& r = c.rng;
    startClock(c);
    vp::Silence sil;
    size_t nz = size_t(r.range(1, 3));
    std::vector<Model> ms_(nz);
    std::vector<std::unique_ptr<FailsafeLogger>> ls;
    for (auto& m : ms_)
    {
        m.id = r.range(-3, 400);
        m.limit = size_t(r.of({0, 1, 2, 3, 5, 20, 20, 100}));
        m.state = r.chance(0.5);
        ls.push_back(std::make_unique<FailsafeLogger>(m.limit, m.state));
    }
    static const std::vector<std::string> locs{"CPU_Temp", "fan0", "T", "DIMM 3", ""}, reasons{"The sensor is missing.", "The sensor has timed out.", "The sensor has recovered.", "x", ""};
    int n = int(r.of({20, 100, 300}));
    double flip = r.of({0.02, 0.1, 0.5});
    bool many = r.chance(0.5);
    for (int k = 0; k < n; k++)
    {
        size_t z = size_t(r.range(0, int64_t(nz) - 1));
        auto& m = ms_[z];
        bool st = r.chance(flip) ? !m.state : m.state;
        std::string loc = r.pick(locs), reason = r.pick(reasons);
        if (many) loc += std::to_string(r.range(0, 60));
        auto v = m.report(st, loc, reason);
        size_t from = sil.err.str().size();
        ls[z]->outputFailsafeLog(m.id, st, loc, reason);
        judge(c, m, v, lines(sil.err.str().substr(from)), st, loc, reason);
        c.sig(uint64_t(v) * 2 + st);
        if (r.chance(0.3)) step(c);
        if (sil.err.str().size() > 20000) sil.err.str("");
    }
    c.nontrivial();
}

// ------------------------------------------------- real zones and sensors
struct S
{
    std::string name, path, kind; // bus, ext, file
    bool fan = false, tol = false;
    conf::SensorConfig cfg;
    std::string how = "ok";
};
struct Z
{
    int64_t id = 0;
    std::set<std::string> therm, fans, acceptable;
    std::shared_ptr<ZoneInterface> z;
    std::shared_ptr<boost::asio::steady_timer> timer;
    bool needs(const std::string& n) const { return therm.count(n) && !acceptable.count(n); }
};
struct W
{
    Case& c;
    vp::Silence sil;
    boost::asio::io_context io;
    sdbusplus::bus_t bus{sdbusplus::bus::new_default()}, hostBus{sdbusplus::bus::new_default()},
        modeBus{sdbusplus::bus::new_default()};
    std::map<std::string, conf::SensorConfig> cfg;
    std::vector<S> sens;
    std::vector<Z> zones;
    std::optional<SensorManager> mgr;
    std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> built;
    bool hostOn = true, cancel = false;
    size_t limit = 20;
    int64_t f = 100, T = 1000;
    explicit W(Case& cc) : c(cc) {}
    std::vector<Line> take()
    {
        auto l = lines(sil.err.str());
        sil.err.str("");
        for (auto& x : l) VP_CHECK(c, x.zone >= 0, "wrong-text", "not a failsafe message: " << x.text);
        return l;
    }
};

void host(W& w, bool on)
{
    std::string st = std::string("xyz.openbmc_project.State.Host.HostState.") + (on ? "Running" : "Off");
    auto& p = Sim::get().services["xyz.openbmc_project.State.Host0"]["/xyz/openbmc_project/state/host0"][HOSTIF];
    p["CurrentHostState"] = toVal(st);
    Sim::get().emitChanged("xyz.openbmc_project.State.Host0", "/xyz/openbmc_project/state/host0", HOSTIF, {{"CurrentHostState", toVal(st)}});
    w.hostOn = on;
}

void genWorld(W& w, bool mayTolerate)
{
    auto& c = w.c;
    auto& r = c.rng;
    auto& sim = Sim::get();
    int nt = int(r.range(1, 5)), nf = int(r.range(1, 3)), nz = int(r.range(1, 3));
    nf = std::max(nf, nz);
    for (int i = 0; i < nt + nf; i++)
    {
        S s;
        s.fan = i >= nt;
        s.name = (s.fan ? "fan" : r.of<std::string>({"T", "CPU_Temp", "dimm"})) + std::to_string(i);
        s.kind = s.fan ? r.of<std::string>({"bus", "file"}) : r.of<std::string>({"bus", "bus", "ext", "file"});
        s.cfg.type = s.fan ? "fan" : r.of<std::string>({"temp", "temp", "margin", "power"});
        s.cfg.timeout = s.kind == "file" ? r.of<int64_t>({0, 1, 2}) : r.of<int64_t>({0, 0, 2, 3});
        s.cfg.unavailableAsFailed = r.chance(0.7);
        s.cfg.ignoreDbusMinMax = true;
        s.cfg.ignoreFailIfHostOff = mayTolerate && r.chance(0.3);
        if (s.kind == "bus")
        {
            s.path = std::string("/xyz/openbmc_project/sensors/") + (s.fan ? "fan_tach/" : s.cfg.type == "power" ? "power/" : "temperature/") + s.name;
            auto& o = sim.services["svc.Sensors"][s.path];
            o[VALUE]["Value"] = toVal(40.0);
            o[CRIT]["CriticalAlarmHigh"] = toVal(false);
            o[CRIT]["CriticalAlarmLow"] = toVal(false);
            o[AVAIL]["Available"] = toVal(true);
            o[OPER]["Functional"] = toVal(true);
        }
        else if (s.kind == "ext")
        {
            s.path = "/xyz/openbmc_project/extsensors/temperature/" + s.name;
            if (s.cfg.timeout == 0) s.cfg.timeout = 2;
        }
        else
        {
            vp::mkdirs(c.dir() + "/sys");
            s.path = c.dir() + "/sys/" + s.name + "_input";
            vp::writeFile(s.path, "40\n");
        }
        s.cfg.readPath = s.path;
        if (s.fan)
        {
            vp::mkdirs(c.dir() + "/sys");
            s.cfg.writePath = c.dir() + "/sys/" + s.name + "_pwm";
            vp::writeFile(s.cfg.writePath, "1\n");
        }
        w.cfg[s.name] = s.cfg;
        w.sens.push_back(s);
    }
    std::set<int64_t> ids;
    while (int(ids.size()) < nz) ids.insert(r.range(0, 12));
    std::map<int64_t, conf::PIDConf> pids;
    std::map<int64_t, conf::ZoneConfig> zc;
    int k = 0;
    for (auto id : ids)
    {
        Z z;
        z.id = id;
        zc[id].minThermalOutput = 1000;
        zc[id].failsafePercent = 75;
        zc[id].cycleTime.cycleIntervalTimeMS = uint64_t(w.f);
        zc[id].cycleTime.updateThermalsTimeMS = uint64_t(w.T);
        auto add = [&](const std::string& n, const std::string& type, const std::vector<std::string>& in) {
            conf::ControllerInfo i{};
            i.type = type;
            for (auto& s : in)
            {
                conf::SensorInput x;
                x.name = s;
                x.missingIsAcceptable = r.chance(0.15);
                if (x.missingIsAcceptable) z.acceptable.insert(s);
                i.inputs.push_back(x);
                (type == "fan" ? z.fans : z.therm).insert(s);
            }
            i.setpoint = 50;
            if (type == "stepwise")
            {
                i.pidInfo.ts = i.stepwiseInfo.ts = 1;
                for (size_t q = 0; q < ec::maxStepwisePoints; q++) i.stepwiseInfo.reading[q] = i.stepwiseInfo.output[q] = vp::NaN;
                i.stepwiseInfo.reading[0] = 10;
                i.stepwiseInfo.output[0] = 2000;
            }
            else
            {
                i.pidInfo.ts = 1;
                i.pidInfo.proportionalCoeff = 1;
                i.pidInfo.outLim = {0, 100};
                i.pidInfo.integralLimit = {0, 0};
            }
            pids[id][n] = i;
        };
        std::vector<std::string> fans;
        for (int q = 0; q < nf; q++)
            if (q % nz == k) fans.push_back(w.sens[size_t(nt + q)].name);
        add("fans", "fan", fans);
        int nc = int(r.range(1, 3));
        for (int j = 0; j < nc; j++)
        {
            std::vector<std::string> in;
            for (int q = 0; q < nt; q++)
                if (r.chance(0.45)) in.push_back(w.sens[size_t(q)].name);
            if (in.empty()) in.push_back(w.sens[size_t(r.range(0, nt - 1))].name);
            r.shuffle(in);
            add("ctl" + std::to_string(j), r.of<std::string>({"temp", "margin", "stepwise", "powersum"}), in);
        }
        w.zones.push_back(std::move(z));
        k++;
    }
    w.mgr.emplace(buildSensors(w.cfg, w.bus, w.hostBus));
    w.built = buildZones(pids, zc, *w.mgr, w.modeBus);
    VP_CHECK(c, w.built.size() == w.zones.size(), "zones-built", w.built.size() << " zones");
    for (auto& z : w.zones)
    {
        z.z = w.built.at(z.id);
        c.log << "zone " << z.id << " thermal:";
        for (auto& n : z.therm) c.log << " " << n << (z.acceptable.count(n) ? "?" : "");
        c.log << " fans:";
        for (auto& n : z.fans) c.log << " " << n << (z.acceptable.count(n) ? "?" : "");
        c.log << "\n";
        c.sig(uint64_t(z.therm.size() * 16 + z.acceptable.size()));
    }
    for (auto& s : w.sens)
        c.log << s.name << " " << s.kind << " timeout " << s.cfg.timeout << (s.cfg.ignoreFailIfHostOff ? " tolerates host off" : "") << "\n";
}

// make a sensor good or bad in some way
void perturb(W& w, S& s)
{
    auto& r = w.c.rng;
    auto& sim = Sim::get();
    if (s.kind == "file")
    {
        if (s.how == "ok" || r.chance(0.2))
        {
            s.how = r.of<std::string>({"gone", "junk"});
            if (s.how == "gone") unlink(s.path.c_str());
            else vp::writeFile(s.path, "junk");
        }
        else
        {
            vp::writeFile(s.path, "42\n");
            s.how = "ok";
        }
        return;
    }
    if (s.kind == "ext")
    {
        s.how = s.how == "ok" ? "nan" : "ok";
        sim.ownSet(s.path, VALUE, "Value", toVal(s.how == "ok" ? 30.0 : vp::NaN));
        return;
    }
    if (s.how == "ok" || r.chance(0.2))
        s.how = r.of<std::string>({"nan", "alarm", "unavailable", "broken", "hot"});
    else
        s.how = "ok";
    sim.emitChanged("svc.Sensors", s.path, AVAIL, {{"Available", toVal(s.how != "unavailable")}});
    sim.emitChanged("svc.Sensors", s.path, OPER, {{"Functional", toVal(s.how != "broken")}});
    sim.emitChanged("svc.Sensors", s.path, CRIT, {{"CriticalAlarmHigh", toVal(s.how == "alarm")}});
    sim.emitChanged("svc.Sensors", s.path, VALUE, {{"Value", toVal(s.how == "nan" ? vp::NaN : s.how == "hot" ? -1.0 : 40.0)}});
}

// each sensor's failure is told to the zones that require it
void logRoute(Case& c)
{
    auto& r = c.rng;
    Sim::get().reset();
    startClock(c);
    W w(c);
    loggingEnabled = tuningEnabled = debugEnabled = coreLoggingEnabled = false;
    auto hb = sdbusplus::bus::new_default();
    HostStateMonitor::getInstance(hb).startMonitoring();
    host(w, r.chance(0.6));
    // routes of an earlier configuration must be gone
    zoneIdToFailsafeLogger[99] = std::make_shared<FailsafeLogger>(20, true);
    for (auto n : {"T0", "CPU_Temp0", "dimm0"}) sensorNameToZoneId[n] = {99, 3};
    genWorld(w, true);
    int rounds = int(r.range(2, 8)), told = 0;
    for (int k = 0; k < rounds; k++)
    {
        w.limit = size_t(r.of({3, 20, 20}));
        for (auto& z : w.zones)
            if (r.chance(0.2)) z.z->initializeCache(); // all its sensors are missing
        buildFailsafeLoggers(w.built, w.limit);
        w.take();
        std::map<int64_t, Model> m;
        for (auto& z : w.zones)
        {
            m[z.id].id = z.id;
            m[z.id].limit = w.limit;
            m[z.id].state = z.z->getFailSafeMode();
        }
        int n = int(r.range(5, 60));
        for (int q = 0; q < n; q++)
        {
            if (r.chance(0.5)) step(c);
            if (r.chance(0.1)) host(w, !w.hostOn);
            if (r.chance(0.6))
            {
                // a report by name
                bool st = r.chance(0.8);
                std::string reason = "reason" + std::to_string(r.range(0, 5));
                bool known = r.chance(0.9);
                auto& s = r.pick(w.sens);
                std::string n = known ? s.name : "nobody";
                std::map<int64_t, int> v;
                for (auto& z : w.zones)
                    if (known && z.needs(n)) v[z.id] = m[z.id].report(st, n, reason);
                outputFailsafeLogWithSensor(n, st, n, reason);
                std::map<int64_t, std::vector<Line>> got;
                for (auto& l : w.take()) got[l.zone].push_back(l);
                for (auto& [id, ls] : got)
                    VP_CHECK(c, v.count(id), "wrong-zone", "a report about " << n << " went to zone " << id << ", which does not require it: " << ls[0].text);
                for (auto& [id, x] : v) judge(c, m[id], x, got[id], st, n, reason);
                told += int(v.size());
            }
            else if (r.chance(0.5))
            {
                bool st = r.chance(0.5);
                auto& z = r.pick(w.zones);
                bool known = r.chance(0.9);
                int64_t id = known ? z.id : 77;
                auto x = known ? m[id].report(st, "place", "why") : 0;
                outputFailsafeLogWithZone(id, st, "place", "why");
                auto got = w.take();
                if (!known) VP_CHECK(c, got.empty(), "wrong-zone", "a report about an unknown zone printed " << got[0].text);
                else judge(c, m[id], x, got, st, "place", "why");
            }
            else
            {
                // the sensor itself, asked whether it has failed
                auto& s = r.pick(w.sens);
                perturb(w, s);
                w.take();
                bool failed = w.mgr->getSensor(s.name)->getFailed();
                std::map<int64_t, std::vector<Line>> got;
                for (auto& l : w.take()) got[l.zone].push_back(l);
                if (!failed)
                {
                    for (auto& [id, ls] : got) c.fail("uncalled-for", VP_STR(s.name << ", not failed, logged for zone " << id << ": " << ls[0].text));
                    continue;
                }
                std::string loc, reason;
                for (auto& [id, ls] : got)
                {
                    VP_CHECK(c, [&] { for (auto& z : w.zones) if (z.id == id) return z.needs(s.name); return false; }(), "wrong-zone", "the failure of " << s.name << " (" << s.how << ") went to zone " << id << ", which does not require it: " << ls[0].text);
                    loc = ls[0].loc;
                    reason = ls[0].reason;
                }
                if (got.empty())
                {
                    // repeated or held back in all of them
                    for (auto& z : w.zones)
                        if (z.needs(s.name))
                        {
                            if (!m[z.id].state) m[z.id].seen.clear();
                            m[z.id].state = true;
                        }
                    continue;
                }
                VP_CHECK(c, loc == s.name, "wrong-text", "the failure of " << s.name << " is logged as at " << loc);
                for (auto& z : w.zones)
                    if (z.needs(s.name))
                    {
                        auto x = m[z.id].report(true, loc, reason);
                        judge(c, m[z.id], x, got[z.id], true, loc, reason);
                        told++;
                    }
                c.count("failures told by the sensors");
            }
        }
    }
    c.count("reports routed", uint64_t(told));
    if (told > 3) c.nontrivial();
    vp::fsjail::clear();
}

// whole zones: what is printed fits what the zones do
void logSystem(Case& c)
{
    auto& r = c.rng;
    Sim::get().reset();
    startClock(c);
    W w(c);
    loggingEnabled = tuningEnabled = debugEnabled = coreLoggingEnabled = false;
    w.f = r.of<int64_t>({50, 100, 200});
    w.T = r.of<int64_t>({w.f, w.f, 2 * w.f, 1000});
    auto hb = sdbusplus::bus::new_default();
    HostStateMonitor::getInstance(hb).startMonitoring();
    host(w, r.chance(0.7));
    genWorld(w, true);
    w.limit = size_t(r.of({20, 20, 20, 5, 1}));
    buildFailsafeLoggers(w.built, w.limit);
    w.take();
    struct H
    {
        bool fs = false, word = false;
        std::set<std::string> failing;
        std::set<std::pair<std::string, std::string>> seen;
        std::deque<int64_t> at;
        int flips = 0;
        std::deque<int64_t> flipAt;
    };
    std::map<int64_t, H> hs;
    auto failing = [](Z& z) {
        std::set<std::string> f;
        for (auto& [n, x] : z.z->getFailSafeSensors()) f.insert(n);
        return f;
    };
    for (auto& z : w.zones)
    {
        hs[z.id].fs = z.z->getFailSafeMode();
        hs[z.id].failing = failing(z);
    }
    int trans = 0;
    auto observe = [&](const std::string& when) {
        int64_t now = vp::clock::mono() / ms;
        std::map<int64_t, std::vector<Line>> got;
        for (auto& l : w.take()) got[l.zone].push_back(l);
        for (auto& z : w.zones)
        {
            auto& h = hs[z.id];
            auto f = failing(z);
            bool fs = z.z->getFailSafeMode();
            // in one cycle the last failure may vanish before a new one is met
            bool fresh = false, kept = false;
            for (auto& n : f) fresh = fresh || !h.failing.count(n);
            for (auto& n : h.failing) kept = kept || f.count(n);
            bool flip = h.fs && fs && fresh && !kept;
            if (flip || fs != h.fs) h.flipAt.push_back(now);
            while (!h.flipAt.empty() && now - h.flipAt.front() > 1000) h.flipAt.pop_front();
            while (!h.at.empty() && now - h.at.front() >= 999) h.at.pop_front();
            size_t before = h.at.size();
            std::string what = VP_STR(when << ", zone " << z.id << " (failsafe " << h.fs << " -> " << fs << ")");
            int in = 0, out = 0;
            for (auto& l : got[z.id])
            {
                if (c.log.tellp() < 100000) c.log << what << ": " << l.text << "\n";
                VP_CHECK(c, z.therm.count(l.loc) || z.fans.count(l.loc), "wrong-zone", what << ": " << l.text << " names a sensor that is not its input");
                VP_CHECK(c, !z.acceptable.count(l.loc) || l.in, "wrong-wording", what << ": " << l.text << " although that sensor's absence is acceptable");
                if (l.in) VP_CHECK(c, h.fs || fs, "wrong-wording", what << ": " << l.text);
                else VP_CHECK(c, (h.fs && !fs) || flip, "wrong-wording", what << ": " << l.text);
                (l.in ? in : out)++;
                if (l.in != h.word) h.seen.clear();
                h.word = l.in;
                // (a change in between may have gone by unlogged)
                VP_CHECK(c, h.seen.insert({l.loc, l.reason}).second || flip || h.fs != fs, "repeated", what << ", limit " << w.limit << ": again " << l.text);
                h.at.push_back(now);
                VP_CHECK(c, h.at.size() <= w.limit, "rate-exceeded", what << ": " << h.at.size() << " messages within a second, the limit is " << w.limit);
            }
            if (h.word != fs || flip)
            {
                h.word = fs;
                h.seen.clear();
            }
            // reports that say nothing count too
            size_t quiet = (z.acceptable.size() + 1) * (h.flipAt.size() + 1) * 2;
            if (before + quiet + got[z.id].size() < w.limit)
            {
                if (!h.fs && fs) VP_CHECK(c, in > 0, "not-logged", what << ": entering failsafe mode was not logged");
                if (h.fs && !fs) VP_CHECK(c, out > 0, "not-logged", what << ": leaving failsafe mode was not logged");
                if (h.fs != fs) c.count("transitions that had to be logged");
            }
            trans += h.fs != fs;
            h.fs = fs;
            h.failing = f;
            c.count("lines", got[z.id].size());
            got.erase(z.id);
        }
        for (auto& [id, l] : got) c.fail("wrong-zone", "no such zone: " + l[0].text);
    };
    int started = 0;
    for (auto& z : w.zones)
    {
        z.timer = std::make_shared<boost::asio::steady_timer>(w.io);
        pidControlLoop(z.z, z.timer, &w.cancel);
        started++;
    }
    // the first pass of one zone may tell another before it starts itself
    {
        auto keep = w.take();
        for (auto& z : w.zones)
        {
            hs[z.id].fs = z.z->getFailSafeMode();
            hs[z.id].failing = failing(z);
            hs[z.id].word = hs[z.id].fs;
            int64_t now = vp::clock::mono() / ms;
            for (auto& l : keep)
                if (l.zone == z.id)
                {
                    hs[z.id].seen.insert({l.loc, l.reason});
                    hs[z.id].at.push_back(now);
                }
        }
    }
    int n = int(r.of({60, 150, 400})) * (c.thorough ? 3 : 1);
    double rate = r.of({0.02, 0.1, 0.3});
    for (int t = 0; t < n; t++)
    {
        vp::clock::advance(w.f * ms);
        for (auto& s : w.sens)
        {
            if (r.chance(rate)) perturb(w, s);
            else if (r.chance(0.5))
            {
                // keep it fresh
                if (s.kind == "bus" && s.how != "nan" && s.how != "hot" && s.how != "unavailable")
                    Sim::get().emitChanged("svc.Sensors", s.path, VALUE, {{"Value", toVal(r.coarse(30, 50))}});
                else if (s.kind == "ext" && s.how == "ok")
                    Sim::get().ownSet(s.path, VALUE, "Value", toVal(r.coarse(30, 50)));
            }
        }
        if (r.chance(0.02)) host(w, !w.hostOn);
        w.io.poll();
        observe("cycle " + std::to_string(t));
        for (auto& z : w.zones) c.sig(uint64_t(hs[z.id].failing.size()));
    }
    c.count("failsafe transitions", uint64_t(trans));
    if (trans > 1) c.nontrivial();
    w.cancel = true;
    for (auto& z : w.zones) z.timer->cancel();
    w.io.poll();
    vp::fsjail::clear();
}
} // namespace

int main(int argc, char** argv)
{
    return vp::run(argc, argv,
                   {
                       {"log_unit", logUnit, 4000, 60000, 500},
                       {"log_route", logRoute, 800, 12000, 1},
                       {"log_system", logSystem, 400, 6000, 1},
                   });
}
