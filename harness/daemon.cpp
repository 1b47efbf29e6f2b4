// The whole daemon: its own main() runs in a process of its own on virtual
// time, over an in-memory bus and scratch files, while a script inside its
// event loop plays the platform: readings, reloads, configuration changes,
// failures, termination.
#include "config.h"

#include "simbus/simbus.hpp"
#include "vp.hpp"

#include <boost/asio/io_context.hpp>
#include <boost/asio/post.hpp>

#include <csignal>
#include <deque>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <set>
#include <unistd.h>

extern boost::asio::io_context io; // the daemon's
int swampd_main(int argc, char* argv[]);

using simbus::Sim;
using simbus::toVal;
using vp::Case;
using vp::num;
using vp::clock::ms;
using vp::clock::sec;
namespace fs = std::filesystem;

namespace
{
constexpr auto VALUE = "xyz.openbmc_project.Sensor.Value";
constexpr auto CRIT = "xyz.openbmc_project.Sensor.Threshold.Critical";
constexpr auto WARN = "xyz.openbmc_project.Sensor.Threshold.Warning";
constexpr auto AVAIL = "xyz.openbmc_project.State.Decorator.Availability";
constexpr auto OPER = "xyz.openbmc_project.State.Decorator.OperationalStatus";
constexpr auto FANPWM = "xyz.openbmc_project.Control.FanPwm";
constexpr auto MODE = "xyz.openbmc_project.Control.Mode";
constexpr auto PIDIF = "xyz.openbmc_project.Configuration.Pid";
constexpr auto ZONEIF = "xyz.openbmc_project.Configuration.Pid.Zone";
constexpr auto STEPIF = "xyz.openbmc_project.Configuration.Stepwise";
constexpr auto THMODE = "xyz.openbmc_project.Control.ThermalMode";
constexpr auto OMIF = "org.freedesktop.DBus.ObjectManager";
constexpr auto HOSTIF = "xyz.openbmc_project.State.Host";
constexpr auto HOSTPATH = "/xyz/openbmc_project/state/host0";
const std::string CTRL = "/xyz/openbmc_project/settings/fanctrl/zone";

struct sigaction daemonTerm, daemonHup;

void wf(const std::string& path, const std::string& text)
{
    vp::mkdirs(path.substr(0, path.rfind('/')));
    vp::writeFile(path, text);
}

// ------------------------------------------------------ what was observed
struct Op
{
    int64_t t; // ms
    bool write;
    std::string path;
    double value; // of a bus write
};
std::vector<Op> ops;
int64_t startMs;
bool recording = true;
std::string sysRoot;
int64_t nowMs() { return vp::clock::mono() / ms - startMs; }
void onOpen(const char* p, bool write)
{
    if (!recording || strncmp(p, sysRoot.c_str(), sysRoot.size())) return;
    ops.push_back({nowMs(), write, p, 0});
}
struct Quiet // the script's own file accesses are not the daemon's
{
    bool was = recording;
    Quiet() { recording = false; }
    ~Quiet() { recording = was; }
};

struct FanM
{
    std::string name, read, write;
    bool busRead = false, busWrite = false;
    int64_t mn = 0, mx = 255;
};
struct TempM
{
    std::string name, path;
    char kind = 's'; // s file, d bus, e external
};
struct ZoneM
{
    int id = 0;
    int64_t iv = 100, th = 1000;
    double fsp = 80, minOut = 1000;
    std::vector<FanM> fans;
    std::vector<std::string> temps;
};
struct Cfg
{
    int ver = 0;
    bool unique = true; // its paths belong to it alone
    std::vector<ZoneM> zones;
    std::vector<TempM> temps;
    std::string json;
    std::set<std::string> busPaths() const
    {
        std::set<std::string> p;
        for (auto& t : temps)
            if (t.kind == 'd') p.insert(t.path);
        for (auto& z : zones)
            for (auto& f : z.fans)
            {
                if (f.busRead) p.insert(f.read);
                if (f.busWrite) p.insert(f.write);
            }
        return p;
    }
};

struct Platform
{
    Case& c;
    vp::Rng& r;
    Sim& sim;
    std::vector<Cfg> all; // every configuration so far
    int64_t killAt = -1, killed = -1;
    bool ended = false, fixedPlace = false;
    std::string cfgFile;
    int64_t faultUntil = -1;
    std::string state = "steady";
    std::function<void()> every; // once per step, after the daemon ran

    explicit Platform(Case& c_) : c(c_), r(c_.rng), sim(Sim::get()) {}

    void note(const std::string& s) { c.log << "[" << nowMs() << " ms] " << s << "\n"; }

    // ---- sensors on the bus
    void provide(const Cfg& g)
    {
        for (auto& t : g.temps)
            if (t.kind == 'd')
            {
                auto& o = sim.services["svc.Temps"][t.path];
                o[VALUE]["Value"] = toVal(40.0);
                o[VALUE]["Unit"] = toVal(std::string("DegreesC"));
                o[CRIT]["CriticalAlarmHigh"] = toVal(false);
            }
        for (auto& z : g.zones)
            for (auto& f : z.fans)
            {
                if (f.busRead) sim.services["svc.Fans"][f.read][VALUE]["Value"] = toVal(3000.0);
                if (f.busWrite) sim.services["svc.Fans"][f.write][FANPWM]["Target"] = toVal(uint64_t(1));
            }
    }
    void withdraw(const std::string& path)
    {
        for (auto& [s, o] : sim.services) o.erase(path);
    }
    void files(const Cfg& g)
    {
        Quiet q;
        for (auto& t : g.temps)
            if (t.kind == 's') wf(t.path, "40\n");
        for (auto& z : g.zones)
            for (auto& f : z.fans)
            {
                if (!f.busRead) wf(f.read, "3000\n");
                if (!f.busWrite) wf(f.write, "7\n");
            }
    }
    // fresh fan speeds (so that the outputs differ from cycle to cycle)
    void spin(const Cfg& g)
    {
        Quiet q;
        for (auto& z : g.zones)
            for (auto& f : z.fans)
            {
                double v = std::floor(r.real(1000, 4000));
                if (f.busRead)
                    sim.emitChanged("svc.Fans", f.read, VALUE, {{"Value", toVal(v)}});
                else if (r.chance(0.3)) vp::writeFile(f.read, std::to_string(int(v)) + "\n");
            }
        for (auto& t : g.temps)
            if (t.kind == 'e' && r.chance(0.1))
                sim.ownSet(t.path, VALUE, "Value", toVal(r.coarse(20, 60, 0.5)));
            else if (t.kind == 'd' && r.chance(0.1))
                sim.emitChanged("svc.Temps", t.path, VALUE, {{"Value", toVal(r.coarse(20, 60, 0.5))}});
    }

    // ---- time
    bool step(int64_t d)
    {
        if (ended) return false;
        vp::clock::advance(d * ms);
        for (int k = 0; k < 3 && !io.stopped(); k++) io.poll();
        if (io.stopped())
        {
            ended = true;
            VP_CHECK(c, killed >= 0, "self-termination", "at " << nowMs() << " ms the daemon ended although nobody asked it to");
            return false;
        }
        if (every) every();
        if (killed >= 0)
            VP_CHECK(c, nowMs() - killed <= 2000, "termination", "the daemon still runs " << nowMs() - killed << " ms after the termination request at " << killed << " ms (" << state << ")");
        else if (killAt >= 0 && nowMs() >= killAt) kill();
        return true;
    }
    void kill()
    {
        killed = nowMs();
        note("SIGTERM (" + state + ")");
        c.count("SIGTERM while " + state);
        raise(SIGTERM);
        if (r.chance(0.2)) raise(SIGTERM);
        if (r.chance(0.1)) raise(SIGHUP);
    }
    // false when the daemon ended meanwhile
    bool pass(int64_t t, int64_t d = 100)
    {
        for (int64_t e = nowMs() + t; nowMs() < e;)
            if (!step(std::min(d, e - nowMs()))) return false;
        return true;
    }

    std::set<int> zonesOnBus()
    {
        std::set<int> z;
        for (auto& [p, i] : sim.ownObjects())
            if (p.starts_with(CTRL) && p.find('/', CTRL.size()) == std::string::npos && i == MODE)
                z.insert(std::stoi(p.substr(CTRL.size())));
        return z;
    }
    static std::set<int> ids(const Cfg& g)
    {
        std::set<int> z;
        for (auto& k : g.zones) z.insert(k.id);
        return z;
    }
    static std::map<std::string, int> fansOf(const Cfg& g) // written path -> zone
    {
        std::map<std::string, int> m;
        for (auto& z : g.zones)
            for (auto& f : z.fans) m[f.write] = z.id;
        return m;
    }

    // wait until configuration g is in force
    // (fresh: every fan has to be written; else a steady bus value will do)
    bool await(const Cfg& g, int64_t limit, bool fresh = true)
    {
        auto fans = fansOf(g);
        size_t from = ops.size();
        int64_t t0 = nowMs();
        while (nowMs() - t0 < limit)
        {
            spin(g);
            if (!step(50)) return false;
            if (zonesOnBus() != ids(g)) { continue; }
            std::set<std::string> seen;
            for (size_t i = from; i < ops.size(); i++)
                if (ops[i].write) seen.insert(ops[i].path);
            bool every = true;
            for (auto& [f, z] : fans)
                every = every && (seen.count(f) || (!fresh && f[0] == '/' && f.starts_with("/xyz")));
            if (every && g.unique) return true;
            // shared paths: the old loops may have written these
            if (every && nowMs() - t0 >= 30000) return true;
        }
        std::ostringstream o;
        for (int z : zonesOnBus()) o << " " << z;
        c.fail("not-resumed", VP_STR(limit << " ms after it was asked for, configuration " << g.ver << " is not in force at " << nowMs() << " ms; zones on the bus:" << o.str()));
    }

    // watch for a while: exactly g's loops run, each once and on time
    bool window(const Cfg& g, int64_t T)
    {
        state = "steady";
        ops.clear();
        int64_t t0 = nowMs();
        for (; nowMs() - t0 < T;)
        {
            spin(g);
            if (!step(10)) return false;
            if (killed >= 0) return pass(3000, 10);
        }
        T = nowMs() - t0;
        VP_CHECK(c, zonesOnBus() == ids(g), "zones", "the zones on the bus are not those of configuration " << g.ver);
        std::set<std::string> ext, want;
        for (auto& [path, i] : sim.ownObjects())
            if (i == VALUE) ext.insert(path);
        for (auto& t : g.temps)
            if (t.kind == 'e') want.insert(t.path);
        for (auto& e : ext) VP_CHECK(c, want.count(e), "old-sensor", "with configuration " << g.ver << " in force, " << e << ", no external sensor of it, is still offered to the host");
        for (auto& e : want) VP_CHECK(c, ext.count(e), "external-missing", "with configuration " << g.ver << " in force, its external sensor " << e << " is not offered to the host");
        std::map<std::string, std::vector<int64_t>> w, rd;
        for (auto& o : ops) (o.write ? w : rd)[o.path].push_back(o.t);
        std::map<std::string, double> due; // reads of temperature files
        for (auto& z : g.zones)
        {
            double n = double(T) / double(z.iv);
            for (auto& f : z.fans)
            {
                auto ws = w[f.write];
                w.erase(f.write);
                VP_CHECK(c, double(ws.size()) <= n + 1.5, "duplicate-loop", "in " << T << " ms zone " << z.id << " of configuration " << g.ver << " wrote " << f.write << " " << ws.size() << " times with an interval of " << z.iv << " ms");
                if (!f.busWrite)
                {
                    VP_CHECK(c, double(ws.size()) >= n - 1.5, "loop-missing", "in " << T << " ms zone " << z.id << " of configuration " << g.ver << " wrote " << f.write << " only " << ws.size() << " times with an interval of " << z.iv << " ms");
                    for (size_t i = 1; i < ws.size(); i++)
                        VP_CHECK(c, std::abs(ws[i] - ws[i - 1] - z.iv) <= 20, "cadence", "zone " << z.id << " wrote " << f.write << " at " << ws[i - 1] << " and " << ws[i] << " ms with an interval of " << z.iv << " ms");
                }
                // a bus target is written only when it changes
                if (!f.busRead)
                {
                    auto rs = rd[f.read];
                    rd.erase(f.read);
                    VP_CHECK(c, std::fabs(double(rs.size()) - n) <= 1.5, "read-cadence", "in " << T << " ms zone " << z.id << " read " << f.read << " " << rs.size() << " times with an interval of " << z.iv << " ms");
                }
                c.count("fan writes in watched windows", ws.size());
            }
            for (auto& t : z.temps) due[t] += double(T) / double(std::max(z.iv, z.th));
        }
        for (auto& t : g.temps)
            if (t.kind == 's')
            {
                auto n = double(rd[t.path].size());
                rd.erase(t.path);
                VP_CHECK(c, std::fabs(n - due[t.name]) <= 1.5 * double(g.zones.size()) + 1, "thermal-cadence", "in " << T << " ms " << t.path << " was read " << n << " times, due were " << due[t.name]);
            }
        for (auto& [p, v] : w)
            if (!v.empty()) c.fail("old-loop-writes", VP_STR("with configuration " << g.ver << " in force, " << p << ", no fan of it, was written at " << v[0] << " ms (" << v.size() << " times)"));
        for (auto& [p, v] : rd)
            if (!v.empty()) c.fail("old-loop-reads", VP_STR("with configuration " << g.ver << " in force, " << p << ", no sensor of it, was read at " << v[0] << " ms (" << v.size() << " times)"));
        c.count("watched windows");
        c.nontrivial();
        return true;
    }

    // after a newer configuration showed itself no older one may act
    std::map<std::string, int> verOf;
    void own(const Cfg& g)
    {
        if (!g.unique) return;
        for (auto& z : g.zones)
            for (auto& f : z.fans) verOf[f.write] = g.ver;
    }
    void order()
    {
        int top = -1;
        int64_t at = 0;
        for (auto& o : ops)
        {
            auto it = verOf.find(o.path);
            if (!o.write || it == verOf.end()) continue;
            if (it->second < top)
                c.fail("old-after-new", VP_STR("configuration " << it->second << " wrote " << o.path << " at " << o.t << " ms, after configuration " << top << " had begun to at " << at << " ms"));
            if (it->second > top)
            {
                top = it->second;
                at = o.t;
            }
        }
    }
};

double rawOf(const FanM& f, double percent)
{
    double v = percent / 100.0;
    if (f.mx <= 0) return double(int64_t(v));
    return double(int64_t((double(f.mx) - double(f.mn)) * v + double(f.mn)));
}

// ---------------------------------------------------- JSON configurations
Cfg genJson(Platform& p, bool mayShare, bool mayBus)
{
    auto& r = p.r;
    Cfg g;
    g.ver = int(p.all.size());
    g.unique = !mayShare || r.chance(0.6);
    std::string dir = sysRoot + (g.unique ? "v" + std::to_string(g.ver) : "common") + "/";
    std::string tag = g.unique ? "v" + std::to_string(g.ver) + "_" : "";
    int nz = int(r.range(1, 3)), nt = int(r.range(1, 4)), fan = 0;
    for (int i = 0; i < nt; i++)
    {
        TempM t;
        t.name = "temp" + std::to_string(i);
        t.kind = mayBus ? r.of({'s', 's', 'd', 'e'}) : r.of({'s', 's', 'e'});
        t.path = t.kind == 's'   ? dir + "temp" + std::to_string(i) + "_input"
                 : t.kind == 'd' ? "/xyz/openbmc_project/sensors/temperature/" + tag + t.name
                                 : "/xyz/openbmc_project/extsensors/temperature/" + tag + t.name;
        g.temps.push_back(t);
    }
    std::vector<int> idPool{0, 1, 2, 3, 4, 5};
    r.shuffle(idPool);
    std::ostringstream js, zs;
    for (int i = 0; i < nz; i++)
    {
        ZoneM z;
        z.id = idPool[size_t(i)];
        z.iv = r.of<int64_t>({50, 100, 100, 150, 200, 500, 1000});
        z.th = r.of<int64_t>({50, 100, 300, 700, 1000, 1000, 2000});
        z.fsp = r.coarse(30, 100, 0.5);
        z.minOut = r.coarse(1500, 3000, 1);
        for (int k = int(r.range(1, 2)); k > 0; k--)
        {
            FanM f;
            f.name = "fan" + std::to_string(fan);
            f.busRead = mayBus && r.chance(0.4);
            f.busWrite = mayBus && r.chance(0.35);
            f.read = f.busRead ? "/xyz/openbmc_project/sensors/fan_tach/" + tag + f.name : dir + f.name + "_input";
            f.write = f.busWrite ? "/xyz/openbmc_project/control/fanpwm/" + tag + f.name : dir + "pwm" + std::to_string(fan);
            f.mn = r.of<int64_t>({0, 0, 20});
            f.mx = r.of<int64_t>({255, 255, 100, 1000});
            fan++;
            z.fans.push_back(f);
        }
        for (auto& t : g.temps)
            if (z.temps.empty() || r.chance(0.4)) z.temps.push_back(t.name);
        g.zones.push_back(z);
        zs << (i ? "," : "") << "{\"id\":" << z.id << ",\"minThermalOutput\":" << num(z.minOut) << ",\"failsafePercent\":" << num(z.fsp);
        zs << ",\"cycleIntervalTimeMS\":" << z.iv << ",\"updateThermalsTimeMS\":" << z.th << ",\"pids\":[";
        bool together = r.chance(0.5);
        auto law = [&](double kp, double ki, double lo, double hi, double ff, double slew) {
            zs << "\"pid\":{\"samplePeriod\":" << num(double(z.iv) / 1000) << ",\"proportionalCoeff\":" << num(kp) << ",\"integralCoeff\":" << num(ki)
               << ",\"feedFwdOffsetCoeff\":0.0,\"feedFwdGainCoeff\":" << num(ff) << ",\"integralLimit_min\":" << num(lo) << ",\"integralLimit_max\":" << num(hi)
               << ",\"outLim_min\":" << num(lo) << ",\"outLim_max\":" << num(hi) << ",\"slewNeg\":" << num(-slew) << ",\"slewPos\":" << num(slew) << "}}";
        };
        for (size_t k = 0; k < z.fans.size(); k += together ? z.fans.size() : 1)
        {
            zs << (k ? "," : "") << "{\"name\":\"fanctl" << i << "_" << k << "\",\"type\":\"fan\",\"inputs\":[\"" << z.fans[k].name << "\"";
            if (together)
                for (size_t q = 1; q < z.fans.size(); q++) zs << ",\"" << z.fans[q].name << "\"";
            zs << "],\"setpoint\":90.0,";
            law(0.02, 0.0, 5, 95, 0.02, 0);
        }
        for (size_t k = 0; k < z.temps.size(); k++)
        {
            zs << ",{\"name\":\"thermal" << i << "_" << k << "\",\"type\":\"temp\",\"inputs\":[\"" << z.temps[k] << "\"],\"setpoint\":" << num(r.coarse(40, 70, 0.5)) << ",";
            law(-r.coarse(10, 80, 1), r.chance(0.5) ? -1.0 : 0.0, 1000, 2600, 0, 0);
        }
        zs << "]}";
    }
    js << "{\"sensors\":[";
    bool first = true;
    for (auto& t : g.temps)
    {
        js << (first ? "" : ",") << "{\"name\":\"" << t.name << "\",\"type\":\"temp\",\"readPath\":\"" << t.path << "\",\"writePath\":\"\",\"min\":0,\"max\":0,\"timeout\":" << r.of({0, 0, 1, 4}) << "}";
        first = false;
    }
    for (auto& z : g.zones)
        for (auto& f : z.fans)
            js << ",{\"name\":\"" << f.name << "\",\"type\":\"fan\",\"readPath\":\"" << f.read << "\",\"writePath\":\"" << f.write << "\",\"min\":" << f.mn << ",\"max\":" << f.mx << (r.chance(0.5) ? ",\"timeout\":0" : "") << "}";
    js << "],\"zones\":[" << zs.str() << "]}";
    g.json = js.str();
    return g;
}

// ----------------------------------------------------------- bus objects
Cfg genBus(Platform& p)
{
    auto& r = p.r;
    Cfg g;
    g.ver = int(p.all.size());
    std::string tag = "v" + std::to_string(g.ver) + "_";
    int nt = int(r.range(1, 3)), fan = 0;
    for (int i = 0; i < nt; i++)
    {
        TempM t;
        t.kind = 'd';
        t.name = tag + "temp" + std::to_string(i);
        t.path = "/xyz/openbmc_project/sensors/temperature/" + t.name;
        g.temps.push_back(t);
    }
    std::vector<int> idPool{0, 1, 2, 3, 4};
    r.shuffle(idPool);
    int nz = int(r.range(1, 2));
    for (int i = 0; i < nz; i++)
    {
        ZoneM z;
        z.id = idPool[size_t(i)];
        z.iv = r.of<int64_t>({50, 100, 200, 500});
        z.th = r.of<int64_t>({100, 500, 1000});
        z.fsp = r.coarse(30, 100, 0.5);
        z.minOut = r.coarse(1500, 3000, 1);
        for (int k = int(r.range(1, 2)); k > 0; k--)
        {
            FanM f;
            f.name = tag + "fan" + std::to_string(fan);
            f.busRead = f.busWrite = true;
            f.read = "/xyz/openbmc_project/sensors/fan_tach/" + f.name;
            f.write = "/xyz/openbmc_project/control/fanpwm/" + tag + "pwm" + std::to_string(fan);
            fan++;
            z.fans.push_back(f);
        }
        for (auto& t : g.temps)
            if (z.temps.empty() || r.chance(0.4)) z.temps.push_back(t.name);
        g.zones.push_back(z);
    }
    return g;
}
constexpr auto EM = "xyz.openbmc_project.EntityManager";
const std::string INV = "/xyz/openbmc_project/inventory/system/board/B";
void publish(Platform& p, const Cfg& g)
{
    auto& r = p.r;
    auto& o = p.sim.services[EM];
    o.clear();
    o["/xyz/openbmc_project/inventory"][OMIF];
    auto d = [](double v) { return toVal(v); };
    int n = 0;
    for (auto& z : g.zones)
    {
        std::string zn = "Zone " + std::to_string(z.id);
        auto& zp = o[INV + "/Zone_" + std::to_string(z.id)][ZONEIF];
        zp["Name"] = toVal(zn);
        zp["ZoneIndex"] = d(z.id);
        zp["FailSafePercent"] = d(z.fsp);
        zp["MinThermalOutput"] = d(z.minOut);
        zp["CycleIntervalTimeMS"] = d(double(z.iv));
        zp["UpdateThermalsTimeMS"] = d(double(z.th));
        auto ctl = [&](const std::string& cls, std::vector<std::string> in, double kp, double lo, double hi, double ff) -> simbus::Props& {
            auto& c = o[INV + "/C" + std::to_string(n)][PIDIF];
            c["Name"] = toVal("Ctl " + std::to_string(n++));
            c["Class"] = toVal(cls);
            c["Inputs"] = toVal(in);
            c["Zones"] = toVal(std::vector<std::string>{zn});
            if (cls != "fan") c["SetPoint"] = d(r.coarse(40, 70, 0.5));
            for (auto k : {"ICoefficient", "FFOffCoefficient", "SlewNeg", "SlewPos"}) c[k] = d(0);
            c["PCoefficient"] = d(kp);
            c["FFGainCoefficient"] = d(ff);
            for (auto k : {"ILimitMin", "OutLimitMin"}) c[k] = d(lo);
            for (auto k : {"ILimitMax", "OutLimitMax"}) c[k] = d(hi);
            return c;
        };
        for (auto& f : z.fans)
            ctl("fan", {f.name}, 0.02, 5, 95, 0.02)["Outputs"] = toVal(std::vector<std::string>{f.write.substr(f.write.rfind('/') + 1)});
        for (auto& t : z.temps) ctl("temp", {t}, -r.coarse(10, 80, 1), 1000, 2600, 0);
    }
}

// --------------------------------------------------------------- the run
void startUp(Case& c)
{
    // descriptors of the event loop are the parent's until now
    sigaction(SIGTERM, &daemonTerm, nullptr);
    sigaction(SIGHUP, &daemonHup, nullptr);
    io.notify_fork(boost::asio::execution_context::fork_prepare);
    io.notify_fork(boost::asio::execution_context::fork_child);
    vp::clock::enable(true);
    vp::clock::set(1600000000 * sec + c.rng.range(0, 999999999), 1000 * sec);
    startMs = vp::clock::mono() / ms;
    std::string d = c.dir();
    for (auto n : {"etc", "var", "usr", "cwd", "tmp", "log"}) vp::mkdirs(d + "/" + n);
    vp::fsjail::map("/etc/thermal.d", d + "/etc");
    vp::fsjail::map("/var/lib/swampd", d + "/var");
    vp::fsjail::map("/usr/share/swampd", d + "/usr");
    sysRoot = d + "/sys/";
    vp::mkdirs(sysRoot);
    setenv("TMPDIR", (d + "/tmp").c_str(), 1);
    if (chdir((d + "/cwd").c_str())) throw vp::HarnessError("chdir");
    vp::fsjail::onOpen = onOpen;
}

int runDaemon(Case& c, vp::Silence& sil, std::vector<std::string> args, const std::function<void()>& script)
{
    args.insert(args.begin(), "swampd");
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back(a.data());
    argv.push_back(nullptr);
    boost::asio::post(io, script);
    try
    {
        return swampd_main(int(args.size()), argv.data());
    }
    catch (...)
    {
        std::string t = sil.err.str();
        c.log << "\nlast output of the daemon:\n" << (t.size() > 3000 ? t.substr(t.size() - 3000) : t);
        throw;
    }
}

std::string placeConfig(Platform& p, std::vector<std::string>& args)
{
    std::string d = p.c.dir();
    switch (p.r.range(0, 4))
    {
        case 0: return d + "/cwd/config.json";
        case 1: return d + "/var/config.json";
        case 2: return d + "/usr/config.json";
        case 3:
            // the first place that has one wins
            vp::writeFile(d + "/usr/config.json", "not even JSON");
            return d + (p.r.chance(0.5) ? "/var/config.json" : "/cwd/config.json");
    }
    args.insert(args.end(), {"-c", d + "/etc/my.json"});
    p.fixedPlace = true;
    return d + "/etc/my.json";
}
// another of the places that are searched
void moveConfig(Platform& p)
{
    if (p.fixedPlace) return;
    std::string d = p.c.dir();
    std::vector<std::string> places{d + "/cwd/config.json", d + "/var/config.json", d + "/usr/config.json"};
    auto at = size_t(p.r.range(0, 2));
    for (size_t i = 0; i <= at; i++) fs::remove(places[i]);
    p.cfgFile = places[at];
    p.c.count("configurations that moved");
}
void noConfig(Platform& p)
{
    std::string d = p.c.dir();
    for (auto f : {d + "/cwd/config.json", d + "/var/config.json", d + "/usr/config.json", p.cfgFile}) fs::remove(f);
}

// what the fans were left at
void leftAt(Platform& p, const std::map<std::string, double>& busLast)
{
    if (!OFFLINE_FAILSAFE_PWM) return;
    // the configuration that wrote last
    const Cfg* last = nullptr;
    for (auto it = ops.rbegin(); it != ops.rend() && !last; ++it)
        if (it->write)
            for (auto g = p.all.rbegin(); g != p.all.rend(); ++g)
                if (Platform::fansOf(*g).count(it->path))
                {
                    last = &*g;
                    break;
                }
    if (!last) return;
    Quiet q;
    for (auto& z : last->zones)
        for (auto& f : z.fans)
        {
            double want = rawOf(f, z.fsp), got;
            if (f.busWrite)
            {
                auto it = busLast.find(f.write);
                got = it == busLast.end() ? -1 : it->second;
            }
            else got = std::atof(vp::readFile(f.write).c_str());
            VP_CHECK(p.c, got == want, "offline-failsafe", "the daemon ended with " << f.write << " of zone " << z.id << " (configuration " << last->ver << ") at " << got << " instead of its failsafe speed " << want);
            p.c.count("fans left at their failsafe speed");
        }
}

// a zone in manual mode whose fans somebody else set when the end comes
void byHand(Platform& p, const Cfg& g, std::map<std::string, double>& busLast)
{
    auto& r = p.r;
    if (p.ended || p.killed >= 0 || !r.chance(0.5)) return;
    auto& z = r.pick(g.zones);
    p.state = "in manual mode";
    // often from failsafe, where the fans are at that speed already
    bool fs = false;
    for (auto& t : g.temps)
        if (std::find(z.temps.begin(), z.temps.end(), t.name) != z.temps.end())
        {
            if (t.kind == 'd') p.sim.emitChanged("svc.Temps", t.path, CRIT, {{"CriticalAlarmHigh", toVal(true)}}), fs = true;
            else if (t.kind == 'e') p.sim.ownSet(t.path, VALUE, "Value", toVal(std::nan(""))), fs = true;
        }
    for (auto& f : z.fans)
        if (f.busRead && r.chance(0.7)) p.sim.emitChanged("svc.Fans", f.read, CRIT, {{"CriticalAlarmHigh", toVal(true)}}), fs = true;
    if (!p.pass(2 * std::max(z.iv, z.th) + z.iv, 10)) return;
    if (p.killed >= 0 || !p.sim.ownSet(CTRL + std::to_string(z.id), MODE, "Manual", toVal(true))) return;
    if (r.chance(0.5) && !p.pass(r.range(0, 3 * z.iv), 10)) return;
    if (p.killed >= 0) return;
    Quiet q;
    for (auto& f : z.fans)
    {
        auto v = r.range(f.mn, f.mx);
        if (f.busWrite)
        {
            p.c.count("bus fans at their failsafe speed before the end by hand", busLast.count(f.write) && busLast[f.write] == rawOf(f, z.fsp));
            p.sim.services["svc.Fans"][f.write][FANPWM]["Target"] = toVal(uint64_t(v));
            busLast[f.write] = double(v);
        }
        else vp::writeFile(f.write, std::to_string(v) + "\n");
    }
    p.note("zone " + std::to_string(z.id) + (fs ? " in failsafe," : "") + " set to manual, its fans set by hand");
    p.c.count("zones in manual mode at the end");
}

void jsonReload(Case& c)
{
    auto& r = c.rng;
    startUp(c);
    vp::Silence sil;
    Platform p(c);
    std::map<std::string, double> busLast;
    p.sim.onSet = [&](const simbus::SetRec& s) {
        if (s.iface != FANPWM || !s.ok) return;
        ops.push_back({nowMs(), true, s.path, s.value.num()});
        busLast[s.path] = s.value.num();
    };
    p.sim.fault = [&](const simbus::Msg& m) -> std::string {
        if (nowMs() >= p.faultUntil) return "";
        if (m.member == "GetObject" || m.member == "GetAll" || m.member == "GetSubTree") return "org.freedesktop.DBus.Error.NoReply";
        return "";
    };
    std::vector<std::string> args;
    p.cfgFile = placeConfig(p, args);
    bool share = OFFLINE_FAILSAFE_PWM == 0;
    auto next = [&]() -> Cfg& {
        bool bus = r.chance(p.fixedPlace && p.all.empty() ? 0 : 0.12);
        p.all.push_back(bus ? genBus(p) : genJson(p, share, true));
        auto& g = p.all.back();
        c.sig(g.json);
        p.own(g);
        p.files(g);
        p.provide(g);
        Quiet q;
        if (bus)
        {
            // without a file the objects on the bus count
            publish(p, g);
            noConfig(p);
            c.log << "configuration " << g.ver << " on the bus\n";
            c.count("configurations on the bus");
            return g;
        }
        if (p.all.size() > 1 && r.chance(0.3)) moveConfig(p);
        vp::writeFile(p.cfgFile, g.json);
        c.log << "configuration " << g.ver << (g.unique ? "" : " (common paths)") << ": " << g.json << "\n";
        return g;
    };
    p.sim.services[EM]["/xyz/openbmc_project/inventory"][OMIF];
    p.sim.services["svc.Temps"]["/xyz/openbmc_project/sensors"][OMIF];
    p.all.reserve(64);
    Cfg* cur = &next();
    if (r.chance(0.5)) p.killAt = r.range(0, 60000);
    // objects of the coming configuration that are not there yet
    auto hold = [&](const Cfg& g) {
        std::set<std::string> gone;
        int64_t until = 0;
        // that build option goes on without them
        if (HANDLE_MISSING_OBJECT_PATHS) return until;
        if (!g.json.empty() && r.chance(0.3))
        {
            for (auto& b : g.busPaths())
                if (r.chance(0.5)) gone.insert(b);
            for (auto& b : gone) p.withdraw(b);
            if (!gone.empty()) until = nowMs() + r.range(100, 25000);
        }
        if (r.chance(0.2)) p.faultUntil = nowMs() + r.range(100, 15000);
        if (!gone.empty()) p.note(std::to_string(gone.size()) + " bus objects withdrawn until " + std::to_string(until));
        return std::max(until, p.faultUntil);
    };
    int64_t until = hold(*cur);
    args.insert(args.end(), {});
    if (r.chance(0.2)) args.push_back("-d");
    bool done = false, simple = until == 0;
    auto settle = [&](const char* st) {
        p.state = st;
        bool ok = true;
        if (until > nowMs())
        {
            int64_t e = until;
            size_t from = ops.size();
            ok = p.pass(e - nowMs(), 100);
            if (p.faultUntil < until && cur->unique && !HANDLE_MISSING_OBJECT_PATHS)
            {
                // it cannot have been built without its sensors
                auto fans = Platform::fansOf(*cur);
                for (size_t i = from; i < ops.size(); i++)
                    VP_CHECK(c, !ops[i].write || !fans.count(ops[i].path), "partial-load", "configuration " << cur->ver << " drives " << ops[i].path << " although sensors of it are missing from the bus");
                c.count("builds that had to be retried");
            }
        }
        p.provide(*cur);
        if (!ok || !p.await(*cur, 65000)) return false;
        // overlapping requests and retries cause further restarts
        if (simple) return true;
        return p.pass(35000) && p.await(*cur, 65000, false);
    };
    int rc = runDaemon(c, sil, args, [&] {
        if (settle("starting up"))
        {
            int rounds = int(r.range(0, c.thorough ? 5 : 2));
            for (int k = 0; k <= rounds && !p.ended; k++)
            {
                int64_t iv = 0;
                for (auto& z : cur->zones) iv = std::max(iv, z.iv);
                if (!p.window(*cur, std::max<int64_t>(2000, 8 * iv)) || p.ended) break;
                p.order();
                if (k == rounds) break;
                p.state = "reloading";
                ops.clear();
                simple = true;
                // some requests whose configuration is overtaken by the next
                for (int j = int(r.of({0, 0, 1, 2})); j > 0; j--)
                {
                    next();
                    simple = false;
                    raise(SIGHUP);
                    p.note("SIGHUP, to be overtaken");
                    if (!p.pass(r.of<int64_t>({0, 10, 500, 990, 1000, 1010, 3000, 10990, 11000, 12500}), 10)) break;
                }
                if (p.ended) break;
                cur = &next();
                until = hold(*cur);
                if (until) simple = false;
                p.note("SIGHUP");
                c.count("reload requests");
                raise(SIGHUP);
                if (r.chance(0.3))
                {
                    if (!p.pass(r.of<int64_t>({0, 10, 1000, 5000}), 10)) break;
                    raise(SIGHUP);
                    simple = false;
                    p.note("SIGHUP again");
                }
                if (!settle("reloading")) break;
                p.order();
            }
        }
        if (cur && p.state == "steady") byHand(p, *cur, busLast);
        if (!p.ended && p.killed < 0) p.kill();
        while (!p.ended) p.step(10);
        done = true;
    });
    VP_CHECK(c, done, "script", "the daemon's main returned while the script was running");
    VP_CHECK(c, rc == 0, "exit-status", "main returned " << rc << " after a termination request");
    size_t n = ops.size();
    leftAt(p, busLast);
    VP_CHECK(c, ops.size() == n, "write-after-end", "writes after the end");
    c.count("configurations loaded", p.all.size());
    c.leaveByExit = true;
}

void busReload(Case& c)
{
    auto& r = c.rng;
    startUp(c);
    vp::Silence sil;
    Platform p(c);
    std::map<std::string, double> busLast;
    p.sim.onSet = [&](const simbus::SetRec& s) {
        if (s.iface != FANPWM || !s.ok) return;
        ops.push_back({nowMs(), true, s.path, s.value.num()});
        busLast[s.path] = s.value.num();
    };
    p.sim.fault = [&](const simbus::Msg& m) -> std::string {
        if (nowMs() >= p.faultUntil) return "";
        if (m.member == "GetObject" || m.member == "GetAll" || m.member == "GetSubTree" || m.member == "GetManagedObjects") return "org.freedesktop.DBus.Error.NoReply";
        return "";
    };
    p.sim.services[EM]["/xyz/openbmc_project/inventory"][OMIF];
    p.sim.services["svc.Temps"]["/xyz/openbmc_project/sensors"][OMIF];
    p.all.reserve(64);
    auto next = [&]() -> Cfg& {
        p.all.push_back(genBus(p));
        auto& g = p.all.back();
        p.own(g);
        p.provide(g);
        publish(p, g);
        c.log << "configuration " << g.ver << ":";
        for (auto& z : g.zones)
        {
            c.log << " zone " << z.id << " (" << z.iv << "/" << z.th << " ms, failsafe " << num(z.fsp) << ", fans";
            for (auto& f : z.fans) c.log << " " << f.name;
            c.log << ")";
            c.sig(uint64_t(z.id * 1000 + z.iv));
        }
        c.log << "\n";
        return g;
    };
    Cfg* cur = nullptr;
    auto tell = [&](const Cfg& g) {
        switch (r.range(0, 5))
        {
            case 0: p.sim.emitChanged(EM, INV + "/C0", PIDIF, {{"SetPoint", toVal(50.0)}}); p.note("controller property changed"); break;
            case 1: p.sim.emitChanged(EM, INV + "/Zone_0", ZONEIF, {{"MinThermalOutput", toVal(50.0)}}); p.note("zone property changed"); break;
            case 2: p.sim.emitChanged(EM, INV + "/S0", STEPIF, {{"Reading", toVal(std::vector<double>{1, 2})}}); p.note("stepwise property changed"); break;
            case 3: p.sim.emitChanged("svc.Mode", "/xyz/openbmc_project/control/thermal_mode", THMODE, {{"Current", toVal(std::string("x"))}}); p.note("thermal mode changed"); break;
            case 4:
                p.sim.emitAdded("svc.Temps", g.temps[0].path, {{VALUE, {{"Value", toVal(40.0)}}}, {"xyz.openbmc_project.Association.Definitions", {}}});
                p.note("sensor added");
                break;
            default: p.sim.emitRemoved("svc.Temps", "/xyz/openbmc_project/sensors/temperature/other", {VALUE}); p.note("sensor removed");
        }
        c.count("configuration change signals");
    };
    if (r.chance(0.4)) p.killAt = r.range(0, 60000);
    bool late = r.chance(0.3), done = false, simple = true;
    auto settle = [&] {
        if (!p.await(*cur, 65000)) return false;
        p.order();
        return simple || (p.pass(35000) && p.await(*cur, 65000, false));
    };
    if (!late) cur = &next();
    if (r.chance(0.3))
    {
        p.faultUntil = r.range(100, 15000);
        simple = false;
    }
    std::vector<std::string> args;
    int rc = runDaemon(c, sil, args, [&] {
        p.state = "starting up";
        bool ok = true;
        if (late)
        {
            p.state = "without configuration";
            ok = p.pass(r.range(0, 30000));
            if (ok)
            {
                cur = &next();
                tell(*cur);
                c.count("configurations that came late");
            }
        }
        if (ok && settle())
        {
            int rounds = int(r.range(0, c.thorough ? 5 : 2));
            for (int k = 0; k <= rounds && !p.ended; k++)
            {
                int64_t iv = 0;
                for (auto& z : cur->zones) iv = std::max(iv, z.iv);
                int64_t T = std::max<int64_t>(2000, 8 * iv);
                if (r.chance(0.3))
                {
                    // changes of no interest
                    p.sim.emitAdded("svc.Temps", cur->temps[0].path, {{"xyz.openbmc_project.Association.Definitions", {}}});
                    p.sim.emitChanged("svc.Temps", cur->temps[0].path, CRIT, {{"CriticalHigh", toVal(99.0)}});
                    T += 4000;
                }
                if (!p.window(*cur, T) || p.ended) break;
                p.order();
                if (k == rounds) break;
                p.state = "reconfiguring";
                ops.clear();
                simple = true;
                for (int j = int(r.of({0, 0, 1, 2})); j > 0; j--)
                {
                    tell(next());
                    simple = false;
                    if (r.chance(0.3)) raise(SIGHUP);
                    if (!p.pass(r.of<int64_t>({0, 10, 500, 1990, 2000, 2010, 3000, 11990, 12000, 12500}), 10)) break;
                }
                if (p.ended) break;
                cur = &next();
                if (r.chance(0.2))
                {
                    p.faultUntil = nowMs() + r.range(100, 20000);
                    simple = false;
                }
                for (int j = int(r.range(1, 3)); j > 0; j--)
                {
                    if (j > 1) simple = false;
                    if (r.chance(0.2))
                    {
                        p.note("SIGHUP");
                        raise(SIGHUP);
                    }
                    else tell(*cur);
                    if (r.chance(0.5) && !p.pass(r.range(0, 2500), 10)) break;
                }
                if (!settle()) break;
                p.order();
            }
        }
        if (cur && p.state == "steady") byHand(p, *cur, busLast);
        if (!p.ended && p.killed < 0) p.kill();
        while (!p.ended) p.step(10);
        done = true;
    });
    VP_CHECK(c, done, "script", "the daemon's main returned while the script was running");
    VP_CHECK(c, rc == 0, "exit-status", "main returned " << rc << " after a termination request");
    leftAt(p, busLast);
    c.count("configurations loaded", p.all.size());
    c.leaveByExit = true;
}

// a configuration that cannot be used ends the daemon, at start and at reload
void fatalConfig(Case& c)
{
    auto& r = c.rng;
    startUp(c);
    vp::Silence sil;
    Platform p(c);
    std::vector<std::string> args;
    p.cfgFile = placeConfig(p, args);
    p.all.push_back(genJson(p, false, false));
    auto& g = p.all.back();
    p.files(g);
    std::string bad;
    switch (r.range(0, 5))
    {
        case 0: bad = ""; break;
        case 1: bad = g.json.substr(0, size_t(r.range(1, int64_t(g.json.size()) - 1))); break;
        case 2: bad = "{\"sensors\":[],\"zones\":[]}"; break;
        case 3: bad = "[]"; break;
        case 4:
        {
            bad = g.json;
            auto at = bad.find("\"proportionalCoeff\":");
            bad.replace(at, 20, "\"proportionalCoeff\":[],\"x\":");
            break;
        }
        default:
        {
            bad = g.json;
            bad.replace(bad.find("\"readPath\""), 10, "\"unread\"");
        }
    }
    c.sig(bad);
    bool atStart = r.chance(0.5);
    c.log << (atStart ? "at start: " : "at reload: ") << bad << "\n";
    vp::writeFile(p.cfgFile, atStart ? bad : g.json);
    c.nontrivial();
    bool done = false;
    c.count(atStart ? "unusable configurations at start" : "unusable configurations at reload");
    runDaemon(c, sil, args, [&] {
        if (!atStart)
        {
            if (!p.await(g, 20000) || !p.window(g, 2000)) return;
            Quiet q;
            vp::writeFile(p.cfgFile, bad);
            raise(SIGHUP);
        }
        c.allowExit(1);
        p.pass(30000);
        c.fail("unusable-accepted", "the daemon runs on with an unusable configuration");
        done = true;
    });
    (void)done;
}

#include "soak.inc"
#include "whole.inc"
} // namespace

int main(int argc, char** argv)
{
    // the daemon's signal set was made before main; only cases use it
    struct sigaction dfl = {};
    dfl.sa_handler = SIG_DFL;
    sigaction(SIGTERM, &dfl, &daemonTerm);
    sigaction(SIGHUP, &dfl, &daemonHup);
    return vp::run(argc, argv,
                   {
                       {"daemon_reload", jsonReload, 240, 6000, 1},
                       {"daemon_bus", busReload, 160, 4000, 1},
                       {"daemon_fatal", fatalConfig, 60, 600, 1},
                       {"soak", soak, 240, 6000, 1},
                       {"whole_host", [](Case& c) { whole(c, {.prefix = "whole-host", .kinds = "de", .host = true, .trouble = 0.5, .chkFs = true, .busTrouble = "nxf"}); }, 80, 4000, 1},
                       {"whole_red", [](Case& c) { whole(c, {.prefix = "whole-redundancy", .kinds = "s", .red = true, .trouble = 0, .chkFs = true}); }, 80, 4000, 1},
                       {"whole_ext", [](Case& c) { whole(c, {.prefix = "whole-external", .kinds = "e", .trouble = 0.3, .chkFs = true, .chkInput = true}); }, 80, 4000, 1},
                       {"whole_bus", [](Case& c) { whole(c, {.prefix = "whole-bus", .kinds = "d", .chkFs = true, .chkInput = true}); }, 80, 4000, 1},
                       {"whole_file", [](Case& c) { whole(c, {.prefix = "whole-file", .kinds = "s", .chkFs = true, .chkInput = true}); }, 80, 4000, 1},
                       {"whole_fans", [](Case& c) { whole(c, {.prefix = "whole-fans", .kinds = "sde", .trouble = 0.1, .chkPwm = true}); }, 80, 4000, 1},
                       {"whole_failsafe", [](Case& c) { whole(c, {.prefix = "whole-failsafe", .kinds = "sde", .host = true, .trouble = 0.2, .chkFs = true, .chkPwm = true}); }, 80, 4000, 1},
                       {"whole_logs", [](Case& c) { whole(c, {.prefix = "whole-logs", .kinds = "sde", .manual = true, .logs = true, .trouble = 0.2}); }, 80, 4000, 1},
                       {"whole_tuning", [](Case& c) { whole(c, {.prefix = "whole-tuning", .kinds = "sde", .tuning = true, .trouble = 0.1, .chkPwm = true}); }, 80, 4000, 1},
                       {"whole_manual", [](Case& c) { whole(c, {.prefix = "whole-manual", .kinds = "sde", .manual = true, .trouble = 0.2}); }, 80, 4000, 1},
                       {"whole_objects", [](Case& c) { whole(c, {.prefix = "whole-objects", .kinds = "sde", .manual = true, .enable = true, .trouble = 0.2, .chkObj = true}); }, 80, 4000, 1},
                       {"whole_json", [](Case& c) { whole(c, {.prefix = "whole-json", .kinds = "sde", .trouble = 0.15, .bus = 0, .chkFs = true, .chkPwm = true, .chkObj = true}); }, 80, 4000, 1},
                       {"whole_busconfig", [](Case& c) { whole(c, {.prefix = "whole-busconfig", .kinds = "d", .trouble = 0.15, .bus = 1, .chkFs = true, .chkPwm = true, .chkObj = true}); }, 80, 4000, 1},
                       {"whole_clock", [](Case& c) { whole(c, {.prefix = "whole-clock", .kinds = "sde", .trouble = 0, .clock = true, .chkFs = true}); }, 16, 100, 1},
                       {"whole_start", [](Case& c) { whole(c, {.prefix = "whole-start", .kinds = "sde", .tuning = true, .logs = true, .trouble = 0.1, .start = true, .chkFs = true, .chkPwm = true}); }, 120, 4000, 1},
                       {"start_fail", startFail, 120, 2000, 1},
                       {"start_move", startMove, 60, 1000, 1},
                       {"whole_setpoint", [](Case& c) { whole(c, {.prefix = "whole-setpoint", .kinds = "sde", .enable = true, .trouble = 0.1, .chkPwm = true}); }, 80, 4000, 1},
                   });
}
