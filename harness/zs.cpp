// Real zones (buildZones + pidControlLoop) on virtual time with recording
// sensors; one reference model of the whole zone, each scenario raising only
// what its own property says (C06-C10, C20, C21, C27).
#include "config.h"
#include "failsafeloggers/builder.hpp"
#include "pid/builder.hpp"
#include "pid/pidloop.hpp"
#include "pid/tuning.hpp"
#include "pid/zone_interface.hpp"
#include "ref.hpp"
#include "sensors/manager.hpp"

#include <sdbusplus/bus.hpp>
#include <simbus/simbus.hpp>

#include <boost/asio/io_context.hpp>
#include <boost/asio/steady_timer.hpp>

#include <fstream>
#include <iostream>
#include <set>

using namespace pid_control;
using simbus::Sim;
using vp::Case;
using vp::num;
using vp::clock::ms;

namespace
{
enum Focus { FAILSAFE, SETPOINT, FANS, MANUAL, CADENCE, LOG, TUNING, BUS };

struct Ev
{
    char t; // R read, W write
    int s;
    double v = 0;
    bool force = false;
    double raw = 0, sp = 0;
};
struct World;
struct Zone;
struct SimSensor : Sensor
{
    World& w;
    int idx;
    ReadReturn r;
    bool failed = false;
    SimSensor(World& ww, int i, const std::string& n, int64_t t) : Sensor(n, t), w(ww), idx(i) {}
    ReadReturn read() override;
    void write(double v) override { write(v, false, nullptr); }
    void write(double v, bool force, int64_t* wr) override;
    bool getFailed() override { return failed; }
    std::string getFailReason() override { return "injected"; }
    int64_t lastRaw = -1;
};

struct SensorM
{
    std::string name;
    bool fan = false;
    int64_t timeout = 0;
    SimSensor* s = nullptr;
    std::unique_ptr<ref::Wave> wave;
    int mode = 0, left = 0; // 0 fresh, 1 silent, 2 failed, 3 NaN, 4 failed and NaN
    double mulUnscaled = 1;
};
struct Step
{
    std::vector<std::pair<double, double>> pts;
    double pos = 0, neg = 0;
    bool ceiling = false;
    double lastIn = vp::NaN, lastOut = vp::NaN;
    double eval(double in) const
    {
        double o = pts[0].second;
        for (auto& p : pts)
            if (p.first <= in) o = p.second;
        return o;
    }
    double step(double in)
    {
        if (std::isnan(lastOut) || in - lastIn > pos || lastIn - in > neg)
        {
            lastOut = eval(in);
            lastIn = in;
        }
        return lastOut;
    }
};
struct Ctl
{
    std::string name, type;
    std::vector<conf::SensorInput> in;
    std::vector<int> sidx;
    double setpoint = 0, fsPct = 0;
    ref::HystPid pid;
    Step st;
    bool enabled = true;
    // last run
    bool ran = false;
    double input = vp::NaN, output = vp::NaN;
    std::string leader; // empty: not specified
    bool dirty = false, dirtySp = false, dirtyClass = false; // overwritten from the bus
    std::string profile() const { return name.substr(name.find('_') + 1); }
};
struct Zone
{
    int64_t id = 0;
    conf::ZoneConfig cfg;
    std::vector<int> fans, therms; // sensor indices, without repeats
    std::set<std::string> acceptable;
    std::map<std::string, double> pct;
    std::vector<Ctl> th, fn; // by name
    std::set<std::string> failing;
    std::shared_ptr<ZoneInterface> z;
    std::shared_ptr<boost::asio::steady_timer> timer;
    std::string path;
    // state
    bool manual = false, enterManual = false, manualSince = false;
    int forceNext = 0; // 1: must force, 2: may force
    double sp = 0, tol = 0;
    std::string leader;
    bool leaderKnown = false;
    int64_t start = 0;
    uint64_t done = 0, thermals = 0; // fan cycles due and thermal cycles run
    uint64_t ran = 0, cnt = 0, sinceThermal = 0;
    bool thermalSeen = false;
    std::map<int, std::pair<double, double>> cmd;             // last command per fan
    std::map<int, std::pair<double, double>> cacheT, cacheF;  // last reading
    std::vector<std::string> rows;
    bool required(const std::string& n) const { return !acceptable.count(n); }
    double percent() const
    {
        double m = 0;
        for (auto& n : failing)
        {
            double p = pct.at(n);
            m = std::max(m, p == 0 ? cfg.failsafePercent : p);
        }
        return m == 0 ? cfg.failsafePercent : m;
    }
};

struct World
{
    Case& c;
    Focus focus;
    vp::Silence sil;
    boost::asio::io_context io;
    sdbusplus::bus_t bus1{sdbusplus::bus::new_default()}, bus2{sdbusplus::bus::new_default()},
        modeBus{sdbusplus::bus::new_default()};
    SensorManager mgr{bus1, bus2};
    std::vector<SensorM> sens;
    std::vector<Zone> zones;
    std::vector<Ev> evs;
    bool cancel = false;
    int64_t f0 = 100;
    int64_t slow = 1;        // intervals (and timeouts) far longer than usual
    double consume = 0;      // chance that an access takes time
    int64_t consumeMax = 0, consumed = 0;
    std::string etc;
    std::map<std::string, std::string> tuneFiles;
    std::map<std::string, std::string> announced; // property -> value

    explicit World(Case& cc, Focus f) : c(cc), focus(f) {}
    void took()
    {
        if (consume > 0 && c.rng.chance(consume))
        {
            int64_t d = c.rng.range(1, consumeMax);
            if (consumed + d > consumeMax * 4) return;
            consumed += d;
            vp::clock::advance(d);
            c.count("delays injected");
        }
    }
    double now() { return double(vp::clock::wall()); }
};

ReadReturn SimSensor::read()
{
    w.evs.push_back({'R', idx});
    w.took();
    return r;
}
void SimSensor::write(double v, bool force, int64_t* wr)
{
    lastRaw = int64_t(w.c.rng.range(0, 255));
    double sp = 0;
    for (auto& z : w.zones)
        if (z.z && std::find(z.fans.begin(), z.fans.end(), idx) != z.fans.end())
            sp = z.z->getMaxSetPointRequest();
    w.evs.push_back({'W', idx, v, force, double(lastRaw), sp});
    if (wr) *wr = lastRaw;
    w.took();
}

// ------------------------------------------------------------- generation
std::vector<std::pair<double, double>> table(vp::Rng& r, double lo, double hi, double omax)
{
    std::vector<std::pair<double, double>> p;
    int n = int(r.range(1, 8));
    double x = lo;
    for (int i = 0; i < n; i++)
    {
        p.push_back({x, r.coarse(0, omax, omax / 20)});
        x += r.coarse(1, (hi - lo) / 3, 1);
    }
    return p;
}

void genSensors(World& w, int nz)
{
    auto& r = w.c.rng;
    int nt = int(r.range(nz, nz + 7));
    int nf = 0;
    for (auto& z : w.zones) (void)z, nf += int(r.range(1, 4));
    for (int i = 0; i < nt + nf; i++)
    {
        SensorM s;
        s.fan = i >= nt;
        s.name = s.fan ? "Fan" + std::to_string(i - nt)
                       : r.of<std::string>({"CPU", "DIMM", "inlet_", "T", "NVMe_Drive"}) +
                             std::to_string(i);
        s.timeout = s.fan ? r.of<int64_t>({0, 0, 0, 1, 2}) : r.of<int64_t>({0, 1, 2, 2, 3, 5});
        if (w.slow > 1 && s.timeout) s.timeout = r.of<int64_t>({45, 60, 255, 256, 300, 3600, 32800, 65600, 100000});
        s.wave = std::make_unique<ref::Wave>(r, s.fan ? 0 : -20, s.fan ? 12000 : 110);
        s.mulUnscaled = s.fan ? r.of({1.0, 1.0, 10000.0}) : r.of({1.0, 1000.0});
        w.sens.push_back(std::move(s));
    }
    for (size_t i = 0; i < w.sens.size(); i++)
    {
        auto p = std::make_unique<SimSensor>(w, int(i), w.sens[i].name, w.sens[i].timeout);
        w.sens[i].s = p.get();
        w.mgr.addSensor(w.sens[i].fan ? "fan" : "temp", w.sens[i].name, std::move(p));
    }
}

ec::pidinfo thermalPid(vp::Rng& r, bool acc)
{
    auto p = ref::genPid(r, r.chance(0.3));
    if (r.chance(0.8) || acc)
    {
        double a = r.coarse(0, 3000, 500);
        p.outLim = {a, a + r.coarse(0, 9000, 500)};
        if (acc && r.chance(0.4)) // one that corrects what the others of its profile ask for
            p.outLim = {-r.coarse(0, 5000, 500), r.coarse(0, 5000, 500)};
        if (acc) p.slewNeg = std::min(p.slewNeg, 0.0);
    }
    if (r.chance(0.5))
    {
        p.proportionalCoeff = -r.coarse(0, 100, 5);
        p.integralCoeff = -r.coarse(0, 10, 1);
    }
    return p;
}

void gen(World& w)
{
    auto& r = w.c.rng;
    int nz = int(r.of({1, 1, 2, 2, 3}));
    std::set<int64_t> ids;
    while (int(ids.size()) < nz)
        ids.insert(r.of<int64_t>({0, 1, 2, 3, 4, 5, 9, 10, 15, 100, 255, r.range(0, 300)}));
    for (auto id : ids)
    {
        Zone z;
        z.id = id;
        w.zones.push_back(std::move(z));
    }
    if ((w.focus == FAILSAFE || w.focus == CADENCE || w.focus == MANUAL) && r.chance(0.08))
        w.slow = r.of<int64_t>({50, 300, 700, 1500});
    genSensors(w, nz);
    std::vector<int> fanIdx, thIdx;
    for (size_t i = 0; i < w.sens.size(); i++) (w.sens[i].fan ? fanIdx : thIdx).push_back(int(i));
    // every zone gets at least one fan and one thermal sensor of its own
    std::map<int, int> owner;
    for (size_t i = 0; i < fanIdx.size(); i++)
        owner[fanIdx[i]] = int(i < size_t(nz) ? i : size_t(r.range(0, nz - 1)));
    static const std::vector<std::string> profs = {"CPU0", "CPU01", "DIMM", "CPU", "Inlet_Temp",
                                                   "PSU_Power", "Ceiling", "x", "Temp_CPU0"};
    static const std::vector<std::string> pre = {"PID_", "Stepwise_", "Linear_", "", "Z_"};
    for (int k = 0; k < nz; k++)
    {
        Zone& z = w.zones[size_t(k)];
        auto& cfg = z.cfg;
        cfg.accumulateSetPoint = r.chance(w.focus == SETPOINT ? 0.4 : 0.2);
        cfg.minThermalOutput = r.of({0.0, 0.0, 500.0, 1000.0, 3000.0, r.coarse(0, 8000, 100)});
        cfg.failsafePercent = r.of({0.0, 30.0, 75.0, 100.0, r.coarse(1, 100, 0.5)});
        int64_t f = r.of<int64_t>({100, 100, 50, 200, 500, r.range(20, 700)});
        int64_t t = r.of<int64_t>({1000, 1000, f, 2 * f, f * 5 / 2, f / 2, 0, r.range(f, 3000),
                                   r.range(1, 2 * f)});
        if (w.focus != CADENCE && w.focus != LOG && r.chance(0.5)) t = r.of<int64_t>({f, 2 * f, 3 * f});
        f *= w.slow, t *= w.slow;
        cfg.cycleTime.cycleIntervalTimeMS = uint64_t(f);
        cfg.cycleTime.updateThermalsTimeMS = uint64_t(t);
        for (auto [i, o] : owner)
            if (o == k) z.fans.push_back(i);
        r.shuffle(z.fans);
        // fan controllers: a partition of the zone's fans
        size_t nfc = z.fans.size() > 1 && r.chance(0.4) ? 2 : 1;
        std::map<std::string, Ctl> cs;
        for (size_t j = 0; j < nfc; j++)
        {
            Ctl ct;
            ct.name = r.of<std::string>({"fanctl", "Fans_", "A"}) + std::to_string(j);
            ct.type = "fan";
            for (size_t q = 0; q < z.fans.size(); q++)
                if (q % nfc == j)
                {
                    conf::SensorInput in;
                    in.name = w.sens[size_t(z.fans[q])].name;
                    in.missingIsAcceptable = r.chance(0.15);
                    ct.in.push_back(in);
                    ct.sidx.push_back(z.fans[q]);
                }
            auto p = ref::genPid(r, r.chance(0.15));
            if (r.chance(0.85)) p.outLim = {r.coarse(0, 40, 5), r.coarse(40, 100, 5)};
            if (r.chance(0.6)) // a plain feed-forward fan controller
            {
                p = ec::pidinfo{};
                p.ts = 1;
                p.feedFwdGain = 0.01;
                p.outLim = {r.coarse(0, 40, 5), 100};
            }
            ct.pid.pid.c = p;
            ct.fsPct = r.of({0.0, 0.0, 50.0, r.coarse(0, 100, 0.5)});
            cs[ct.name] = ct;
        }
        // thermal controllers
        int nth = int(r.range(1, 5));
        bool own = false;
        for (int j = 0; j < nth; j++)
        {
            Ctl ct;
            ct.name = r.pick(pre) + r.pick(profs);
            if (cs.count(ct.name)) ct.name += "_" + std::to_string(j);
            if (cs.count(ct.name)) continue;
            ct.type = r.of<std::string>({"temp", "temp", "margin", "power", "powersum", "stepwise",
                                         "stepwise"});
            std::vector<int> pool = thIdx;
            r.shuffle(pool);
            size_t m = size_t(r.range(1, int64_t(std::min<size_t>(pool.size(), 4))));
            std::vector<int> pick;
            if (!own) pick.push_back(thIdx[size_t(k)]), own = true;
            for (int i : pool)
            {
                bool foreign = false; // the own sensors of the other zones stay theirs
                for (int q = 0; q < nz; q++)
                    if (q != k && thIdx[size_t(q)] == i) foreign = true;
                if (!foreign && pick.size() < m &&
                    std::find(pick.begin(), pick.end(), i) == pick.end())
                    pick.push_back(i);
            }
            r.shuffle(pick);
            if (pick.empty()) continue;
            for (int i : pick)
            {
                conf::SensorInput in;
                in.name = w.sens[size_t(i)].name;
                in.missingIsAcceptable = r.chance(0.12);
                if (ct.type == "margin" && r.chance(0.5))
                {
                    in.convertTempToMargin = true;
                    in.convertMarginZero = r.coarse(80, 110, 1);
                }
                ct.in.push_back(in);
                ct.sidx.push_back(i);
            }
            ct.setpoint = r.coarse(0, 90, 5);
            ct.fsPct = r.of({0.0, 0.0, 60.0, r.coarse(0, 100, 0.5)});
            if (ct.type == "stepwise")
            {
                ct.st.pts = table(r, -20, 100, 10000);
                if (cfg.accumulateSetPoint && r.chance(0.3))
                    for (auto& pt : ct.st.pts) pt.second -= 4000;
                ct.st.pos = r.of({0.0, 0.0, 1.0, 3.0});
                ct.st.neg = r.of({0.0, 0.0, 1.0, 3.0});
                ct.st.ceiling = r.chance(0.3);
            }
            else
                ct.pid.pid.c = thermalPid(r, cfg.accumulateSetPoint);
            cs[ct.name] = ct;
        }
        for (auto& [n, ct] : cs)
        {
            for (auto& in : ct.in)
            {
                if (in.missingIsAcceptable) z.acceptable.insert(in.name);
                auto it = z.pct.try_emplace(in.name, ct.fsPct).first;
                it->second = std::max(it->second, ct.fsPct);
            }
            if (ct.type == "fan")
                z.fn.push_back(ct);
            else
            {
                z.th.push_back(ct);
                for (int i : ct.sidx)
                    if (std::find(z.therms.begin(), z.therms.end(), i) == z.therms.end())
                        z.therms.push_back(i);
            }
        }
        for (int i : z.fans)
            if (z.required(w.sens[size_t(i)].name)) z.failing.insert(w.sens[size_t(i)].name);
        for (int i : z.therms)
            if (z.required(w.sens[size_t(i)].name)) z.failing.insert(w.sens[size_t(i)].name);
    }
}

void build(World& w)
{
    std::map<int64_t, conf::PIDConf> pids;
    std::map<int64_t, conf::ZoneConfig> cfgs;
    for (auto& z : w.zones)
    {
        cfgs[z.id] = z.cfg;
        w.c.log << "zone " << z.id << ": min " << z.cfg.minThermalOutput << " failsafe "
                << z.cfg.failsafePercent << "% interval " << z.cfg.cycleTime.cycleIntervalTimeMS
                << " ms thermals " << z.cfg.cycleTime.updateThermalsTimeMS << " ms accumulate "
                << z.cfg.accumulateSetPoint << "\n";
        for (auto* v : {&z.fn, &z.th})
            for (auto& ct : *v)
            {
                conf::ControllerInfo i{};
                i.type = ct.type;
                i.inputs = ct.in;
                i.setpoint = ct.setpoint;
                i.failSafePercent = ct.fsPct;
                w.c.log << "  " << ct.name << " (" << ct.type << ", failsafe " << ct.fsPct
                        << "%, setpoint " << ct.setpoint << ") inputs:";
                for (auto& in : ct.in)
                    w.c.log << " " << in.name << (in.missingIsAcceptable ? "?" : "");
                if (ct.type == "stepwise")
                {
                    auto& s = i.stepwiseInfo;
                    s.ts = 1;
                    for (size_t k = 0; k < ec::maxStepwisePoints; k++)
                        s.reading[k] = s.output[k] = vp::NaN;
                    w.c.log << (ct.st.ceiling ? " ceiling" : " table");
                    for (size_t k = 0; k < ct.st.pts.size(); k++)
                    {
                        s.reading[k] = ct.st.pts[k].first;
                        s.output[k] = ct.st.pts[k].second;
                        w.c.log << " " << s.reading[k] << "->" << s.output[k];
                    }
                    s.positiveHysteresis = ct.st.pos;
                    s.negativeHysteresis = ct.st.neg;
                    s.isCeiling = ct.st.ceiling;
                    i.pidInfo.ts = 1;
                }
                else
                {
                    i.pidInfo = ct.pid.pid.c;
                    w.c.log << " " << ref::show(i.pidInfo);
                }
                w.c.log << "\n";
                w.c.sig(ct.name);
                pids[z.id][ct.name] = i;
            }
    }
    auto built = buildZones(pids, cfgs, w.mgr, w.modeBus);
    VP_CHECK(w.c, built.size() == w.zones.size(), "zones-built",
             built.size() << " zones were built of " << w.zones.size());
    for (auto& z : w.zones)
    {
        z.z = built.at(z.id);
        z.path = "/xyz/openbmc_project/settings/fanctrl/zone" + std::to_string(z.id);
    }
}

// ------------------------------------------------------------- the model
bool sensorBad(World& w, SensorM& s)
{
    if (s.s->failed) return true;
    int64_t age = vp::clock::wall() -
                  std::chrono::duration_cast<std::chrono::nanoseconds>(
                      s.s->r.updated.time_since_epoch())
                      .count();
    return s.timeout != 0 && age >= s.timeout * vp::clock::sec;
}
void sample(World& w, Zone& z, int i)
{
    auto& s = w.sens[size_t(i)];
    (s.fan ? z.cacheF : z.cacheT)[i] = {s.s->r.value, s.s->r.unscaled};
    bool bad = sensorBad(w, s);
    if (bad && z.required(s.name))
        z.failing.insert(s.name);
    else if (!bad)
        z.failing.erase(s.name);
}

std::string tuneValue(World& w, Zone& z, double& sp)
{
    // the zone's own file wins over the common one
    for (auto& n : {std::string("setpoint"), "setpoint.zone" + std::to_string(z.id)})
    {
        auto it = w.tuneFiles.find(n);
        if (it == w.tuneFiles.end()) continue;
        // a whole number above 100
        const std::string& t = it->second;
        size_t i = 0;
        while (i < t.size() && isspace(uint8_t(t[i]))) i++;
        size_t j = i;
        if (j < t.size() && t[j] == '+') j++;
        size_t d0 = j;
        while (j < t.size() && isdigit(uint8_t(t[j]))) j++;
        if (j == d0 || j - d0 > 9) continue;
        double v = double(std::stoll(t.substr(d0, j - d0)));
        if (v > 100) sp = v;
    }
    return "";
}

void thermalCycle(World& w, Zone& z)
{
    for (int i : z.therms) sample(w, z, i);
    double tol = 1e-6, floorV = z.cfg.minThermalOutput;
    std::map<std::string, double> prof;
    std::map<std::string, std::vector<std::string>> names;
    double ceil = vp::INF;
    for (auto& ct : z.th)
    {
        double in, out;
        std::string lead;
        bool leadKnown = true;
        if (ct.type == "stepwise")
        {
            in = std::numeric_limits<double>::lowest();
            for (int i : ct.sidx)
            {
                double v = z.cacheT.at(i).first;
                if (!std::isnan(v)) in = std::max(in, v);
            }
            out = ct.st.step(in);
            leadKnown = false;
        }
        else
        {
            in = ct.type == "margin" ? vp::INF : ct.type == "powersum" ? 0.0 : -vp::INF;
            bool any = false;
            double second = vp::NaN;
            for (size_t k = 0; k < ct.sidx.size(); k++)
            {
                double v = z.cacheT.at(ct.sidx[k]).first;
                if (!std::isfinite(v)) continue;
                if (ct.in[k].convertTempToMargin) v = ct.in[k].convertMarginZero - v;
                any = true;
                if (ct.type == "powersum")
                    in += v, leadKnown = false;
                else if (ct.type == "margin" ? v < in : v > in)
                    in = v, lead = ct.in[k].name;
                else if (v == in)
                    second = v;
            }
            if (second == in) leadKnown = false; // a tie
            if (!any) in = ct.setpoint, leadKnown = false;
            out = ct.pid.step(in, ct.setpoint);
            tol += ct.pid.pid.tol();
        }
        ct.ran = true;
        ct.dirty = false;
        ct.input = in;
        ct.output = out;
        ct.leader = leadKnown ? lead : "";
        if (!ct.enabled) continue;
        if (ct.type == "stepwise" && ct.st.ceiling)
        {
            ceil = std::min(ceil, out);
            continue;
        }
        if (z.cfg.accumulateSetPoint)
        {
            prof[ct.profile()] += out;
            names[ct.profile()].push_back(ct.name);
        }
        else
        {
            prof[ct.name] = out;
            names[ct.name].push_back(ct.name);
        }
    }
    double best = 0;
    std::string who;
    for (auto& [n, v] : prof)
        if (v > best) best = v, who = n;
    z.leaderKnown = true;
    int close = 0;
    for (auto& [n, v] : prof)
        if (std::fabs(v - best) <= tol) close++;
    if (close > 1) z.leaderKnown = false;
    z.leader = "";
    for (auto& n : who.empty() ? std::vector<std::string>() : names[who])
        z.leader += (z.leader.empty() ? "" : " + ") + n;
    if (std::fabs(ceil - best) <= tol && ceil < vp::INF) z.leaderKnown = false;
    if (ceil < best)
    {
        best = ceil;
        z.leader = "Ceiling";
        if (std::fabs(best - ceil) > tol) z.leaderKnown = true;
        else z.leaderKnown = z.leaderKnown || close > 1;
    }
    if (std::fabs(floorV - best) <= tol && floorV != best) z.leaderKnown = false;
    if (floorV >= best)
    {
        best = floorV;
        if (!(std::fabs(floorV - best) <= tol && !z.leaderKnown)) z.leaderKnown = true;
        z.leader = "Minimum";
    }
    z.sp = best;
    z.tol = tol;
    if (tuningEnabled) tuneValue(w, z, z.sp);
    z.thermalSeen = true;
    z.thermals++;
}

std::string bget(World& w, const std::string& path, const std::string& iface,
                 const std::string& prop)
{
    simbus::Val v;
    if (!Sim::get().ownGet(path, iface, prop, v)) return "<absent>";
    return v.str();
}
simbus::Val bval(World& w, const std::string& path, const std::string& iface,
                 const std::string& prop)
{
    simbus::Val v;
    if (!Sim::get().ownGet(path, iface, prop, v))
        w.c.fail("bus-object", "no property " + prop + " of " + iface + " at " + path);
    if (v.t == 'v') return v.kids[0];
    return v;
}
constexpr auto ifMode = "xyz.openbmc_project.Control.Mode";
constexpr auto ifZone = "xyz.openbmc_project.Debug.Pid.Zone";
constexpr auto ifPid = "xyz.openbmc_project.Debug.Pid.ThermalPower";
constexpr auto ifEn = "xyz.openbmc_project.Object.Enable";

// what a client that only follows the change signals takes for the value
void followed(World& w, const std::string& path, const std::string& iface, const std::string& prop)
{
    auto v = bval(w, path, iface, prop).str();
    auto [it, first] = w.announced.try_emplace(path + "|" + iface + "|" + prop, v);
    if (!first)
        VP_CHECK(w.c, it->second == v, "bus-unannounced",
                 path << " " << prop << " is " << v << ", the last value announced is " << it->second);
}

void checkState(World& w, Zone& z, const char* when)
{
    auto& c = w.c;
    if (w.focus == FAILSAFE)
    {
        std::string f;
        for (auto& n : z.failing) f += " " + n;
        VP_CHECK(c, z.z->getFailSafeMode() == !z.failing.empty(), "failsafe-state",
                 when << ": zone " << z.id << " failsafe mode is " << z.z->getFailSafeMode()
                      << " while the failed required sensors are:" << f);
        auto v = bval(w, z.path, ifMode, "FailSafe");
        VP_CHECK(c, bool(v.i) == !z.failing.empty(), "failsafe-bus",
                 when << ": zone " << z.id << " shows FailSafe " << v.i << " with failed:" << f);
    }
    if (w.focus == SETPOINT || w.focus == TUNING)
    {
        double got = z.z->getMaxSetPointRequest();
        VP_CHECK(c, std::fabs(got - z.sp) <= z.tol, w.focus == SETPOINT ? "setpoint" : "tuning-setpoint",
                 when << ": zone " << z.id << " set-point is " << num(got) << ", expected "
                      << num(z.sp) << " (tuning " << tuningEnabled << ")");
    }
    if (w.focus == SETPOINT && z.leaderKnown)
    {
        auto v = bval(w, z.path, ifZone, "Leader");
        VP_CHECK(c, v.s == z.leader, "setpoint-leader",
                 when << ": zone " << z.id << " names '" << v.s << "' as leader, expected '"
                      << z.leader << "' (set-point " << num(z.sp) << ")");
    }
    if (w.focus == BUS)
    {
        double got = z.z->getMaxSetPointRequest();
        VP_CHECK(c, std::fabs(got - z.sp) <= z.tol, "bus-influence",
                 when << ": zone " << z.id << " set-point is " << num(got) << ", expected "
                      << num(z.sp) << " from readings, Manual and Enabled alone");
        auto m = bval(w, z.path, ifMode, "Manual");
        VP_CHECK(c, bool(m.i) == z.manual && z.z->getManualMode() == z.manual, "bus-manual",
                 when << ": zone " << z.id << " Manual on the bus " << m.i << ", loop uses "
                      << z.z->getManualMode() << ", last written " << z.manual);
        auto f = bval(w, z.path, ifMode, "FailSafe");
        VP_CHECK(c, bool(f.i) == z.z->getFailSafeMode() && bool(f.i) == !z.failing.empty(),
                 "bus-failsafe",
                 when << ": zone " << z.id << " FailSafe on the bus " << f.i << ", loop uses "
                      << z.z->getFailSafeMode());
        auto l = bval(w, z.path, ifZone, "Leader");
        if (z.leaderKnown)
            VP_CHECK(c, l.s == z.leader, "bus-leader",
                     when << ": zone " << z.id << " Leader '" << l.s << "', deciding was '"
                          << z.leader << "'");
        followed(w, z.path, ifMode, "Manual");
        for (auto& ct : z.th)
        {
            std::string p = z.path + "/" + ct.name;
            followed(w, p, ifEn, "Enabled");
            for (auto n : {"Input", "Output", "Leader"}) followed(w, p, ifPid, n);
            auto e = bval(w, p, ifEn, "Enabled");
            VP_CHECK(c, bool(e.i) == ct.enabled, "bus-enabled",
                     when << ": " << p << " Enabled " << e.i << ", last written " << ct.enabled);
            auto sp = bval(w, p, ifPid, "Setpoint");
            VP_CHECK(c, ct.dirtySp || sp.d == ct.setpoint, "bus-setpoint",
                     when << ": " << p << " Setpoint " << num(sp.d) << ", configured "
                          << num(ct.setpoint));
            if (ct.type == "stepwise") continue;
            auto k = bval(w, p, ifPid, "ClassType");
            static const std::map<std::string, std::string> cls = {
                {"temp", "Temperature"}, {"margin", "Margin"}, {"power", "Power"},
                {"powersum", "PowerSum"}};
            VP_CHECK(c, ct.dirtyClass || k.s == cls.at(ct.type), "bus-class",
                     when << ": " << p << " ClassType " << k.s << " for " << ct.type);
            if (!ct.ran || ct.dirty) continue;
            auto in = bval(w, p, ifPid, "Input");
            VP_CHECK(c, vp::close(in.d, ct.input, 1e-9, 1e-9), "bus-input",
                     when << ": " << p << " Input " << num(in.d) << ", its last run used "
                          << num(ct.input));
            auto o = bval(w, p, ifPid, "Output");
            VP_CHECK(c, ct.pid.pid.same(o.d, ct.output), "bus-output",
                     when << ": " << p << " Output " << num(o.d) << ", its last run gave "
                          << num(ct.output));
            if (!ct.leader.empty())
            {
                auto ld = bval(w, p, ifPid, "Leader");
                VP_CHECK(c, ld.s == ct.leader, "bus-pid-leader",
                         when << ": " << p << " Leader " << ld.s << ", its input came from "
                              << ct.leader);
            }
        }
    }
}

// one fan cycle seen in the events
void segment(World& w, Zone& z, const std::vector<Ev>& evs)
{
    auto& c = w.c;
    bool thermal = false;
    std::map<int, std::vector<Ev>> writes;
    for (auto& e : evs)
    {
        if (e.t == 'W')
            writes[e.s].push_back(e);
        else if (!w.sens[size_t(e.s)].fan)
            thermal = true;
    }
    z.ran++;
    z.sinceThermal++;
    c.count("fan cycles");
    double spBefore = z.sp;
    std::string leadBefore = z.leader;
    bool leadKnown = z.leaderKnown;
    for (int i : z.fans) sample(w, z, i);
    std::string row;
    std::map<int, std::pair<double, double>> thBefore = z.cacheT, cmdBefore = z.cmd;
    const uint64_t f = z.cfg.cycleTime.cycleIntervalTimeMS, T = z.cfg.cycleTime.updateThermalsTimeMS;
    if (thermal)
    {
        c.count("thermal cycles");
        if ((w.focus == CADENCE || w.focus == MANUAL) && z.thermals > 1)
        {
            uint64_t lo = T / f, hi = (T + f - 1) / f;
            if (T <= f) lo = hi = 1;
            // after a manual spell the next one may come sooner, those after
            // it may not
            if (w.focus == MANUAL && z.manualSince) lo = 1;
            if (w.focus == MANUAL && !z.manualSince) c.count("thermal cycles timed");
            VP_CHECK(c, z.sinceThermal >= lo && z.sinceThermal <= hi, "thermal-spacing",
                     "zone " << z.id << ": a thermal cycle came " << z.sinceThermal
                             << " fan cycles after the one before; interval " << f << " ms, thermals "
                             << T << " ms");
        }
        thermalCycle(w, z);
        z.sinceThermal = 0;
        z.manualSince = false;
    }
    if (w.focus == CADENCE && T > 0)
    {
        // not early, and at most one fan cycle late (thermals counts the one
        // at start too)
        uint64_t n = z.thermals - 1, lo = T <= f ? z.ran - 1 : (z.ran - 1) * f / T, hi = T <= f ? z.ran : z.ran * f / T;
        VP_CHECK(c, n >= lo && n <= hi, "thermal-rate",
                 "zone " << z.id << ": " << n << " thermal cycles after start in "
                         << z.ran << " fan cycles; interval " << f << " ms, thermals " << T << " ms");
    }
    // fan controllers
    bool fs = !z.failing.empty();
    double pct = z.percent();
    for (auto& ct : z.fn)
    {
        double in = 0;
        for (int i : ct.sidx)
        {
            double v = z.cacheF.at(i).second;
            if (std::isfinite(v) && v > 0 && (in == 0 || v < in)) in = v;
        }
        double sp = z.sp; // as the zone had it when it wrote
        for (int i : ct.sidx)
            for (auto& e : writes[i]) sp = e.sp;
        double out = ct.pid.step(in, sp), want = out;
        if (fs && !tuningEnabled) want = STRICT_FAILSAFE_PWM ? pct : std::max(out, pct);
        for (int i : ct.sidx)
        {
            auto& s = w.sens[size_t(i)];
            auto& ws = writes[i];
            double tol = ct.pid.pid.tol() / 100 + 1e-9;
            if (w.focus == FANS)
            {
                VP_CHECK(c, !ws.empty(), "fan-not-written",
                         "zone " << z.id << " ran a fan cycle without writing " << s.name);
                for (auto& e : ws)
                {
                    if (fs && !tuningEnabled)
                    {
                        VP_CHECK(c, e.v >= pct / 100 - tol, "failsafe-pwm-low",
                                 "zone " << z.id << " in failsafe wrote " << num(e.v) << " to "
                                         << s.name << ", the failsafe speed is " << pct << "%");
                        if (STRICT_FAILSAFE_PWM)
                            VP_CHECK(c, std::fabs(e.v - pct / 100) <= tol, "failsafe-pwm-strict",
                                     "zone " << z.id << " in failsafe wrote " << num(e.v) << " to "
                                             << s.name << ", strict failsafe is " << pct << "%");
                    }
                    VP_CHECK(c, std::fabs(e.v - want / 100) <= tol,
                             fs ? "failsafe-pwm" : "normal-pwm",
                             "zone " << z.id << " wrote " << num(e.v) << " to " << s.name
                                     << ", expected " << num(want / 100) << " (failsafe " << fs
                                     << " at " << pct << "%, tuning " << tuningEnabled
                                     << ", controller output " << num(out) << ")");
                }
                c.count(fs ? "writes in failsafe" : "writes out of failsafe");
            }
            if (w.focus == MANUAL)
            {
                VP_CHECK(c, !ws.empty(), "manual-not-rewritten",
                         "zone " << z.id << " ran a fan cycle without writing " << s.name);
                for (auto& e : ws)
                {
                    if (z.forceNext == 1)
                        VP_CHECK(c, e.force, "manual-not-forced",
                                 "zone " << z.id << ": the first write to " << s.name
                                         << " after the return to automatic mode is not forced");
                    if (z.forceNext == 0)
                        VP_CHECK(c, !e.force, "manual-forced-again",
                                 "zone " << z.id << ": a write to " << s.name
                                         << " is forced without a preceding return to automatic mode");
                }
                if (z.forceNext == 1) c.count("forced rewrites checked");
            }
            if (!ws.empty()) z.cmd[i] = {ws.back().v, ws.back().raw};
        }
    }
    z.forceNext = 0;
    if (w.focus == LOG)
    {
        auto g = [](double d) { return VP_STR(d); };
        std::ostringstream o;
        // columns to be compared as text; the epoch is checked apart
        int64_t e = vp::clock::wall() / ms;
        o << e << "," << g(spBefore) << "," << (leadKnown ? leadBefore : "*");
        z.rows.push_back(o.str());
        std::map<std::string, std::string> cols;
        std::ostringstream k;
        auto nn = std::pair<double, double>{vp::NaN, vp::NaN};
        for (int i : z.fans)
        {
            auto v = z.cacheF.at(i);
            auto p = cmdBefore.count(i) ? cmdBefore[i] : nn;
            auto& n = w.sens[size_t(i)].name;
            k << ";" << n << "=" << g(v.first) << ";" << n << "_raw=" << g(v.second) << ";" << n
              << "_pwm=" << g(p.first) << ";" << n << "_pwm_raw=" << g(p.second);
        }
        for (int i : z.therms)
        {
            auto v = thBefore.at(i);
            auto& n = w.sens[size_t(i)].name;
            k << ";" << n << "=" << g(v.first) << ";" << n << "_raw=" << g(v.second);
        }
        k << ";failsafe=" << int(fs) << ";";
        z.rows.back() += "|" + k.str();
    }
}

void perturb(World& w, double rate)
{
    auto& r = w.c.rng;
    auto wall = std::chrono::high_resolution_clock::time_point(
        std::chrono::nanoseconds(vp::clock::wall()));
    for (auto& s : w.sens)
    {
        if (s.left-- <= 0)
        {
            s.mode = r.chance(rate) ? int(r.range(1, 4)) : 0;
            s.left = s.mode ? int(r.of<int64_t>({1, 3, 10, 30, 80})) : int(r.range(0, 5));
            if (s.mode) w.c.count("sensor faults injected");
        }
        double v = s.wave->next();
        s.s->failed = s.mode == 2 || s.mode == 4;
        if (s.mode == 1) continue; // silent
        double u = v * s.mulUnscaled;
        if (s.mode >= 3) v = u = vp::NaN;
        s.s->r.value = v;
        s.s->r.unscaled = u;
        s.s->r.updated = wall;
    }
}

void checkLogs(World& w, const std::string& dir)
{
    auto& c = w.c;
    for (auto& z : w.zones)
    {
        std::string t = vp::readFile(dir + "/zone_" + std::to_string(z.id) + ".log");
        std::vector<std::vector<std::string>> rows;
        std::istringstream is(t);
        std::string line;
        while (std::getline(is, line))
        {
            rows.emplace_back();
            std::istringstream ls(line + ",");
            std::string f;
            while (std::getline(ls, f, ',')) rows.back().push_back(f);
        }
        VP_CHECK(c, !rows.empty() && t.back() == '\n', "log-header",
                 "zone " << z.id << " has no header in its log: '" << t.substr(0, 200) << "'");
        auto& h = rows[0];
        VP_CHECK(c, h.size() == 4 + 4 * z.fans.size() + 2 * z.therms.size() && h[0] == "epoch_ms" &&
                        h[1] == "setpt" && h[2] == "requester" && h.back() == "failsafe",
                 "log-header", "zone " << z.id << " header is: " << t.substr(0, t.find('\n')));
        VP_CHECK(c, rows.size() == z.rows.size() + 1, "log-rows",
                 "zone " << z.id << " logged " << rows.size() - 1 << " rows for " << z.rows.size()
                         << " fan cycles");
        for (size_t k = 0; k < z.rows.size(); k++)
        {
            auto& r = rows[k + 1];
            VP_CHECK(c, r.size() == h.size(), "log-columns",
                     "zone " << z.id << " row " << k << " has " << r.size() << " fields for "
                             << h.size() << " columns");
            auto bar = z.rows[k].find('|');
            std::string head = z.rows[k].substr(0, bar), cols = z.rows[k].substr(bar + 1);
            std::istringstream hs(head);
            std::string e, sp, rq;
            std::getline(hs, e, ',');
            std::getline(hs, sp, ',');
            std::getline(hs, rq);
            VP_CHECK(c, r[0] == e, "log-time", "zone " << z.id << " row " << k << " has time " << r[0]
                                                       << ", the cycle ran at " << e);
            VP_CHECK(c, vp::close(std::strtod(r[1].c_str(), nullptr), std::strtod(sp.c_str(), nullptr), 2e-5, 1e-5),
                     "log-setpoint", "zone " << z.id << " row " << k << " has set-point " << r[1]
                                             << ", the zone's was " << sp);
            VP_CHECK(c, rq == "*" || r[2] == rq, "log-requester",
                     "zone " << z.id << " row " << k << " names " << r[2] << ", deciding was " << rq);
            for (size_t q = 3; q < h.size(); q++)
            {
                auto p = cols.find(";" + h[q] + "=");
                VP_CHECK(c, p != std::string::npos, "log-header",
                         "zone " << z.id << " has an unexpected column " << h[q]);
                p += h[q].size() + 2;
                std::string want = cols.substr(p, cols.find(';', p) - p);
                double a = std::strtod(r[q].c_str(), nullptr), b = std::strtod(want.c_str(), nullptr);
                VP_CHECK(c, r[q] == want || vp::close(a, b, 2e-5, 1e-9), "log-value",
                         "zone " << z.id << " row " << k << " column " << h[q] << " is " << r[q]
                                 << ", that cycle's was " << want);
                c.count("log values checked");
            }
        }
    }
}

void sim(Case& c, Focus focus)
{
    Sim::get().reset();
    vp::clock::set(1700000000000000000ll + c.rng.range(0, 999999999), 5000000000000ll);
    World w(c, focus);
    auto& r = c.rng;
    tuningEnabled = loggingEnabled = debugEnabled = coreLoggingEnabled = false;
    loggingPath.clear();
    debugEnabled = r.chance(0.05);
    if (focus == TUNING) tuningEnabled = r.chance(0.8);
    if (focus == FANS) tuningEnabled = r.chance(0.15);
    if (focus == LOG)
    {
        loggingEnabled = true;
        loggingPath = c.dir() + "/log";
        vp::mkdirs(loggingPath);
    }
    if (focus == TUNING || tuningEnabled)
    {
        w.etc = c.dir() + "/etc";
        vp::mkdirs(w.etc);
        vp::fsjail::map("/etc/thermal.d", w.etc);
    }
    gen(w);
    build(w);
    double rate = r.of({0.0, 0.005, 0.01, 0.02, 0.05, 0.1, 0.3});
    int64_t minF = 1 << 30;
    for (auto& z : w.zones) minF = std::min<int64_t>(minF, int64_t(z.cfg.cycleTime.cycleIntervalTimeMS));
    if (focus == CADENCE)
    {
        if (r.chance(0.6))
        {
            w.consume = r.of({0.02, 0.1, 0.5});
            w.consumeMax = r.of<int64_t>({minF / 8 + 1, minF / 2 + 1, minF * 3}) * ms;
        }
    }
    auto writeTune = [&] {
        std::vector<std::string> names = {"setpoint"};
        for (auto& z : w.zones) names.push_back("setpoint.zone" + std::to_string(z.id));
        names.push_back("setpoint.zone77");
        for (auto& n : names)
        {
            if (!r.chance(0.5)) continue;
            std::string t = r.of<std::string>(
                {"", "3000", "3000\n", "100", "101", "0", "-500", "abc", " 2500 ", "4200 rpm", "12000",
                 "\n\n777\n", "1e5", "99999999999", "+600", "50", "9000,1", "x5000"});
            if (r.chance(0.2)) t = std::to_string(r.range(-200, 20000));
            if (r.chance(0.1)) t = std::to_string(r.of<int64_t>({32767, 32768, 40000, 65535, 65536, 70000, 900000}));
            std::string p = w.etc + "/" + n;
            if (r.chance(0.25))
            {
                unlink(p.c_str());
                w.tuneFiles.erase(n);
                c.log << "  remove " << n << "\n";
            }
            else
            {
                vp::writeFile(p, t);
                w.tuneFiles[n] = t;
                c.log << "  " << n << " := '" << t << "'\n";
            }
        }
    };
    perturb(w, rate);
    if (r.chance(0.3)) // some sensors have never been updated
        for (auto& s : w.sens)
            if (r.chance(0.5)) s.s->r = ReadReturn{};
    if (!w.etc.empty()) writeTune();
    int64_t startT = vp::clock::mono();
    if (focus == BUS)
        Sim::get().onOwnChange = [&w](const std::string& path, const std::string& iface, const std::string& prop) {
            auto& v = w.announced[path + "|" + iface + "|" + prop];
            v = bval(w, path, iface, prop).str();
            w.c.count("changes announced");
        };
    for (auto& z : w.zones)
    {
        z.timer = std::make_shared<boost::asio::steady_timer>(w.io);
        if (r.chance(0.1) && focus == MANUAL)
        {
            // put in manual mode before the loop starts
            Sim::get().ownSet(z.path, ifMode, "Manual", simbus::toVal(true));
            z.manual = true;
        }
        if (focus == FAILSAFE)
        {
            // not started yet: no statement
        }
        w.evs.clear();
        double keep = w.consume;
        w.consume = 0;
        pidControlLoop(z.z, z.timer, &w.cancel);
        w.consume = keep;
        bool th = false;
        for (auto& e : w.evs)
        {
            VP_CHECK(c, e.t != 'W' || !z.manual || focus != MANUAL, "manual-write",
                     "a fan of zone " << z.id << " was written at start in manual mode");
            th = th || !w.sens[size_t(e.s)].fan;
        }
        if (focus == CADENCE)
            VP_CHECK(c, th, "thermal-at-start", "zone " << z.id << " ran no thermal cycle at start");
        thermalCycle(w, z);
        z.start = vp::clock::mono();
        checkState(w, z, "after start");
    }
    w.evs.clear();
    int64_t tick = r.of<int64_t>({minF / 2, minF / 4, minF, minF * 13 / 10, 2 * minF + 1, minF / 3});
    tick = std::max<int64_t>(tick, 5);
    int n = int(r.of({40, 120, 300}) * (c.thorough ? 4 : 1));
    if (focus == LOG || focus == BUS) n = std::min(n, 200);
    int failsafeTicks = 0, normalTicks = 0, manualTicks = 0;
    for (int t = 0; t < n; t++)
    {
        vp::clock::advance(tick * ms + (r.chance(0.2) ? r.range(0, 999999) : 0));
        perturb(w, rate);
        if (!w.etc.empty() && r.chance(0.1)) writeTune();
        for (auto& z : w.zones)
        {
            bool some = focus == MANUAL || focus == CADENCE || focus == BUS || focus == FANS;
            if (some && r.chance(focus == MANUAL ? 0.06 : 0.02))
            {
                bool m = r.chance(0.85) ? !z.manual : z.manual;
                std::string err;
                bool ok = Sim::get().ownSet(z.path, ifMode, "Manual", simbus::toVal(m), &err);
                VP_CHECK(c, ok, focus == BUS ? "bus-manual-write" : "manual-set",
                         "writing Manual " << m << " of zone " << z.id << " failed: " << err);
                if (!m) z.forceNext = z.manual ? 1 : std::max(z.forceNext, 2) == 2 && z.forceNext != 1 ? 2 : 1;
                z.manual = m;
                c.log << "  t" << t << " zone " << z.id << " Manual=" << m << "\n";
                c.count("mode changes");
            }
            if ((focus == SETPOINT || focus == BUS || focus == TUNING) && r.chance(0.05))
            {
                auto& ct = r.pick(z.th);
                bool e = r.chance(0.6) ? !ct.enabled : true;
                std::string err;
                bool ok = Sim::get().ownSet(z.path + "/" + ct.name, ifEn, "Enabled",
                                            simbus::toVal(e), &err);
                VP_CHECK(c, ok, "enable-set", "writing Enabled of " << ct.name << " failed: " << err);
                ct.enabled = e;
                c.count("enable changes");
            }
            if (focus == BUS && r.chance(0.1))
            {
                // the read-only ones refuse, the informational ones mean nothing
                std::string err;
                auto& ct = r.pick(z.th);
                std::string p = z.path + "/" + ct.name;
                bool fs = z.failing.empty();
                bool ok = r.chance(0.5)
                              ? Sim::get().ownSet(z.path, ifMode, "FailSafe", simbus::toVal(fs), &err)
                              : Sim::get().ownSet(z.path, ifZone, "Leader", simbus::toVal(std::string("me")), &err);
                VP_CHECK(c, !ok, "bus-readonly", "a write to a read-only property was accepted");
                if (r.chance(0.4))
                {
                    double v = r.of({0.0, 1.0, 12345.0, -5.0});
                    switch (r.range(0, 4))
                    {
                        case 0: Sim::get().ownSet(p, ifPid, "Setpoint", simbus::toVal(v), &err); ct.dirtySp = true; break;
                        case 1: Sim::get().ownSet(p, ifPid, "Output", simbus::toVal(v), &err); break;
                        case 2: Sim::get().ownSet(p, ifPid, "Input", simbus::toVal(v), &err); break;
                        case 3: Sim::get().ownSet(p, ifPid, "Leader", simbus::toVal(std::string("me")), &err); break;
                        default: Sim::get().ownSet(p, ifPid, "ClassType", simbus::toVal(std::string("me")), &err); ct.dirtyClass = true; break;
                    }
                    ct.dirty = true;
                    c.count("informational values overwritten");
                }
                c.count("read-only writes refused");
            }
        }
        w.evs.clear();
        w.consumed = 0;
        int64_t before = vp::clock::mono();
        w.io.poll();
        int64_t after = vp::clock::mono();
        // split the events into fan cycles
        std::map<int, size_t> zoneOf; // fan -> zone
        for (size_t k = 0; k < w.zones.size(); k++)
            for (int i : w.zones[k].fans) zoneOf[i] = k;
        std::map<size_t, std::vector<std::vector<Ev>>> segs;
        std::vector<size_t> order;
        size_t cur = ~size_t(0);
        for (auto& e : w.evs)
        {
            if (e.t == 'R' && w.sens[size_t(e.s)].fan)
            {
                size_t k = zoneOf.at(e.s);
                bool again = false;
                if (cur == k)
                    for (auto& x : segs[k].back())
                        if (x.s == e.s || x.t == 'W') again = true;
                if (cur != k || again)
                {
                    segs[k].emplace_back();
                    order.push_back(k);
                    cur = k;
                }
            }
            if (cur != ~size_t(0))
            {
                if (e.t == 'W' && zoneOf.at(e.s) != cur)
                {
                    if (focus == FANS || focus == MANUAL)
                        c.fail("foreign-write", "a cycle of zone " + std::to_string(w.zones[cur].id) +
                                                    " wrote " + w.sens[size_t(e.s)].name +
                                                    " of another zone");
                }
                segs[cur].back().push_back(e);
            }
        }
        for (auto& e : w.evs)
            if (e.t == 'W' && focus == MANUAL)
            {
                auto& z = w.zones[zoneOf.at(e.s)];
                VP_CHECK(c, !z.manual, "manual-write",
                         "tick " << t << ": " << w.sens[size_t(e.s)].name << " was written ("
                                 << num(e.v) << ") while zone " << z.id << " is in manual mode");
            }
        // fan cycles due
        for (size_t k = 0; k < w.zones.size(); k++)
        {
            auto& z = w.zones[k];
            int64_t f = int64_t(z.cfg.cycleTime.cycleIntervalTimeMS) * ms;
            uint64_t dueBefore = uint64_t((before - z.start) / f), dueAfter = uint64_t((after - z.start) / f);
            uint64_t got = segs.count(k) ? segs[k].size() : 0;
            if (focus == CADENCE || focus == MANUAL)
            {
                if (z.manual)
                    VP_CHECK(c, got == 0, "manual-cycle",
                             "zone " << z.id << " ran " << got << " fan cycles in manual mode");
                else
                    VP_CHECK(c, z.done + got >= dueBefore && z.done + got <= dueAfter, "fan-cadence",
                             "tick " << t << ": zone " << z.id << " has run " << z.done + got
                                     << " fan cycles (manual ones included) " << (after - z.start) / ms
                                     << " ms after its start, interval " << f / ms << " ms");
            }
            z.done = z.manual ? dueAfter : z.done + got;
        }
        std::map<size_t, size_t> used;
        for (size_t k : order) segment(w, w.zones[k], segs[k][used[k]++]);
        for (auto& z : w.zones)
        {
            checkState(w, z, ("tick " + std::to_string(t)).c_str());
            manualTicks += z.manual;
            if (z.manual) z.manualSince = true;
            (z.failing.empty() ? normalTicks : failsafeTicks)++;
            c.sig(uint64_t(z.failing.size()) * 4 + z.manual);
            c.sig(std::round(z.sp));
        }
    }
    c.count("zone ticks in failsafe", uint64_t(failsafeTicks));
    c.count("zone ticks out of failsafe", uint64_t(normalTicks));
    c.count("zone ticks in manual mode", uint64_t(manualTicks));
    c.count("loops simulated (virtual ms)", uint64_t((vp::clock::mono() - startT) / ms));
    if (failsafeTicks && normalTicks) c.nontrivial();
    if (focus == TUNING || focus == LOG) c.nontrivial();
    // stop
    w.cancel = true;
    for (auto& z : w.zones) z.timer->cancel();
    w.io.poll();
    w.evs.clear();
    for (auto& z : w.zones)
    {
        bool fsBefore = !z.failing.empty();
        (void)fsBefore;
        long uses = z.z.use_count();
        VP_CHECK(c, uses == 1, "harness-zone-kept", "zone " << z.id << " is still referenced " << uses);
        w.evs.clear();
        double pct = z.percent();
        (void)0;
        { auto dying = std::move(z.z); }
        if (focus == FANS)
        {
            std::set<int> wr;
            for (auto& e : w.evs)
            {
                if (e.t != 'W') continue;
                VP_CHECK(c, OFFLINE_FAILSAFE_PWM, "write-at-end",
                         "a zone wrote its fans when it ended, without the offline option");
                VP_CHECK(c, std::fabs(e.v - pct / 100) <= 1e-9, "offline-pwm",
                         "zone " << z.id << " ended with " << num(e.v) << " for "
                                 << w.sens[size_t(e.s)].name << ", the failsafe speed is " << pct << "%");
                wr.insert(e.s);
            }
            if (OFFLINE_FAILSAFE_PWM)
            {
                VP_CHECK(c, wr.size() == z.fans.size(), "offline-pwm",
                         "zone " << z.id << " ended writing " << wr.size() << " of " << z.fans.size()
                                 << " fans");
                c.count("offline failsafe writes", wr.size());
            }
        }
    }
    if (focus == LOG)
    {
        checkLogs(w, loggingPath);
    }
    loggingEnabled = tuningEnabled = debugEnabled = false;
    vp::fsjail::clear();
}
} // namespace

int main(int argc, char** argv)
{
    return vp::run(argc, argv,
                   {
                       {"zone_failsafe", [](Case& c) { sim(c, FAILSAFE); }, 2400, 40000, 200},
                       {"zone_setpoint", [](Case& c) { sim(c, SETPOINT); }, 2400, 40000, 200},
                       {"zone_fans", [](Case& c) { sim(c, FANS); }, 2000, 40000, 200},
                       {"zone_manual", [](Case& c) { sim(c, MANUAL); }, 2400, 40000, 200},
                       {"zone_cadence", [](Case& c) { sim(c, CADENCE); }, 2400, 40000, 200},
                       {"zone_log", [](Case& c) { sim(c, LOG); }, 600, 10000, 100},
                       {"zone_tuning", [](Case& c) { sim(c, TUNING); }, 2000, 40000, 100},
                       {"zone_bus", [](Case& c) { sim(c, BUS); }, 1600, 20000, 200},
                   });
}
