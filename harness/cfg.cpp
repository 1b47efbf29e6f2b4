// The configuration readers: JSON documents (C14) and configuration objects on
// the bus (C15), each compared with what the generator put into them.
#include "config.h"
#include "buildjson/buildjson.hpp"
#include "conf.hpp"
#include "dbus/dbusconfiguration.hpp"
#include "errors/exception.hpp"
#include "pid/buildjson.hpp"
#include "sensors/buildjson.hpp"
#include "vp.hpp"

#include <boost/asio/io_context.hpp>
#include <nlohmann/json.hpp>
#include <sdbusplus/bus.hpp>
#include <simbus/simbus.hpp>

#include <algorithm>
#include <map>
#include <set>

using namespace pid_control;
using simbus::Sim;
using simbus::toVal;
using vp::Case;
using vp::num;

namespace
{
// ------------------------------------------------------ a JSON document tree
struct J
{
    enum Kind
    {
        Null,
        Bool,
        Num,
        Int,
        Str,
        Arr,
        Obj
    } k = Null;
    bool b = false;
    double d = 0;
    int64_t i = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;

    static J boolean(bool v) { J j; j.k = Bool; j.b = v; return j; }
    static J number(double v) { J j; j.k = Num; j.d = v; return j; }
    static J integer(int64_t v) { J j; j.k = Int; j.i = v; return j; }
    static J str(std::string v) { J j; j.k = Str; j.s = std::move(v); return j; }
    static J arr() { J j; j.k = Arr; return j; }
    static J obj() { J j; j.k = Obj; return j; }
    J& set(const std::string& key, J v)
    {
        o.emplace_back(key, std::move(v));
        return o.back().second;
    }
    J* get(const std::string& key)
    {
        for (auto& [n, v] : o)
            if (n == key) return &v;
        return nullptr;
    }
    void drop(const std::string& key)
    {
        std::erase_if(o, [&](auto& p) { return p.first == key; });
    }
};

void putStr(std::ostream& os, vp::Rng& r, const std::string& s)
{
    os << '"';
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\') os << '\\' << ch;
        else if (ch < 0x20 || (ch < 0x7f && r.chance(0.02)))
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            os << b;
        }
        else os << ch;
    }
    os << '"';
}
void ws(std::ostream& os, vp::Rng& r)
{
    if (r.chance(0.3)) os << r.of<std::string>({" ", "\n", "\t", "  \r\n"});
}
void emit(std::ostream& os, vp::Rng& r, const J& j)
{
    ws(os, r);
    switch (j.k)
    {
        case J::Null: os << "null"; break;
        case J::Bool: os << (j.b ? "true" : "false"); break;
        case J::Int: os << j.i; break;
        case J::Num:
        {
            char b[64];
            if (j.d == std::floor(j.d) && std::fabs(j.d) < 1e9 && r.chance(0.5))
                snprintf(b, sizeof b, r.chance(0.5) ? "%.0f" : "%.1f", j.d);
            else
                snprintf(b, sizeof b, r.chance(0.3) ? "%.17e" : "%.17g", j.d);
            os << b;
            break;
        }
        case J::Str: putStr(os, r, j.s); break;
        case J::Arr:
        {
            os << '[';
            for (size_t i = 0; i < j.a.size(); i++)
            {
                if (i) os << ',';
                emit(os, r, j.a[i]);
            }
            ws(os, r);
            os << ']';
            break;
        }
        case J::Obj:
        {
            os << '{';
            bool first = true;
            for (auto& [n, v] : j.o)
            {
                if (!first) os << ',';
                first = false;
                ws(os, r);
                putStr(os, r, n);
                ws(os, r);
                os << ':';
                emit(os, r, v);
            }
            ws(os, r);
            os << '}';
        }
    }
    ws(os, r);
}
// key order and keys nobody asked for make no difference
void scramble(J& j, vp::Rng& r, const std::vector<std::string>& own, bool table = false)
{
    if (j.k == J::Obj)
    {
        for (auto& [n, v] : j.o) scramble(v, r, own, n == "reading" || n == "output");
        for (int k = int(r.range(0, 2)); k > 0; k--)
        {
            std::string n = table ? r.of<std::string>({"20", "21", "00", "x", "-1"})
                                  : r.of<std::string>({"comment", "x-Name", "NAME", "Type", "Min", "profile",
                                                       "failSafePercent", "FailsafePercent", "", "zone", "input"}) +
                                        std::to_string(r.range(0, 9));
            if (j.get(n)) continue;
            J v = r.chance(0.3) ? J::str("77") : r.chance(0.5) ? J::number(77) : r.chance(0.5) ? J::obj() : J::arr();
            if (v.k == J::Obj && r.chance(0.5)) v.set("name", J::str("inner"));
            j.o.emplace_back(n, v);
        }
        r.shuffle(j.o);
    }
    else if (j.k == J::Arr)
        for (auto& v : j.a) scramble(v, r, own);
}

// ---------------------------------------------------------------- the model
struct Doc
{
    J root = J::obj();
    std::map<std::string, conf::SensorConfig> sensors;
    std::map<int64_t, conf::PIDConf> pids;
    std::map<int64_t, conf::ZoneConfig> zones;
};

std::string word(vp::Rng& r)
{
    return r.of<std::string>({"fan", "temp", "CPU Temp", "P1V8_\"q\"", "dimm/0", "a\\b", "\xc3\xa9t\xc3\xa9", "margin.x",
                              "T\t1", "sensor"});
}
double anyNum(vp::Rng& r)
{
    switch (r.range(0, 6))
    {
        case 0: return 0;
        case 1: return r.coarse(-100, 100, 0.25);
        case 2: return r.real(-1, 1);
        case 3: return r.real(-1e4, 1e4);
        case 4: return double(r.range(-30000, 30000));
        case 5: return r.of({1e-9, -1e-9, 1e12, -1e12, 0.1, 2.5, 1e300});
        default: return r.coarse(0, 100, 1);
    }
}
int64_t anyInt(vp::Rng& r)
{
    return r.of<int64_t>({0, 1, 2, 4, 255, -1, -5, 100, 65536, 5000000000ll, r.range(0, 1000), r.range(-1000, 1000)});
}

void genSensor(Case& c, Doc& d, J& arr, const std::string& name)
{
    auto& r = c.rng;
    conf::SensorConfig s{};
    J j = J::obj();
    j.set("name", J::str(name));
    s.type = r.of<std::string>({"fan", "fan", "temp", "temp", "margin", "power", "powersum", "zoo"});
    j.set("type", J::str(s.type));
    s.readPath = r.of<std::string>({"/xyz/openbmc_project/sensors/temperature/", "/sys/class/hwmon/**/",
                                    "/xyz/openbmc_project/extsensors/margin/", "None", ""}) + name;
    j.set("readPath", J::str(s.readPath));
    if (r.chance(0.5))
    {
        s.writePath = r.of<std::string>({"", "None", "/sys/devices/pwm1", "/xyz/openbmc_project/control/fanpwm/Pwm_1"});
        j.set("writePath", J::str(s.writePath));
    }
    auto flag = [&](const char* n, bool def, bool& f) {
        f = def;
        if (r.chance(0.45))
        {
            f = r.chance(0.5);
            j.set(n, J::boolean(f));
        }
    };
    flag("ignoreDbusMinMax", false, s.ignoreDbusMinMax);
    flag("unavailableAsFailed", true, s.unavailableAsFailed);
    flag("ignoreFailIfHostOff", false, s.ignoreFailIfHostOff);
    for (auto n : {"min", "max"})
        if (r.chance(0.5))
        {
            int64_t v = anyInt(r);
            j.set(n, J::integer(v));
            if (s.type == "fan") (n[1] == 'i' ? s.min : s.max) = v;
        }
    s.timeout = s.type == "fan" ? 0 : 2; // as sensors/sensor.hpp documents
    if (r.chance(0.5))
    {
        s.timeout = anyInt(r);
        j.set("timeout", J::integer(s.timeout));
    }
    d.sensors[name] = s;
    arr.a.push_back(j);
}

void genController(Case& c, conf::PIDConf& conf, J& arr, const std::string& name)
{
    auto& r = c.rng;
    conf::ControllerInfo info{};
    J j = J::obj();
    j.set("name", J::str(name));
    info.type = r.of<std::string>({"fan", "temp", "margin", "power", "powersum", "stepwise", "stepwise"});
    j.set("type", J::str(info.type));
    J in = J::arr();
    int n = int(r.range(0, 6));
    for (int i = 0; i < n; i++)
    {
        conf::SensorInput si;
        si.name = word(r) + std::to_string(r.range(0, 3));
        info.inputs.push_back(si);
        in.a.push_back(J::str(si.name));
    }
    j.set("inputs", in);
    info.setpoint = anyNum(r);
    j.set("setpoint", J::number(info.setpoint));
    if (r.chance(0.4))
    {
        J m = J::arr();
        int k = int(r.range(0, 8));
        for (int i = 0; i < k; i++)
        {
            double v = anyNum(r);
            m.a.push_back(J::number(v));
            if (size_t(i) < info.inputs.size())
            {
                info.inputs[size_t(i)].convertMarginZero = v;
                info.inputs[size_t(i)].convertTempToMargin = true;
            }
        }
        j.set("tempToMargin", m);
    }
    if (r.chance(0.4))
    {
        J m = J::arr();
        int k = int(r.range(0, 4));
        for (int i = 0; i < k; i++)
        {
            std::string nm = !info.inputs.empty() && r.chance(0.7) ? r.pick(info.inputs).name : word(r) + "9";
            m.a.push_back(J::str(nm));
            for (auto& x : info.inputs)
                if (x.name == nm) x.missingIsAcceptable = true;
        }
        j.set("missingIsAcceptable", m);
    }
    info.failSafePercent = 0;
    if (r.chance(0.4))
    {
        info.failSafePercent = r.coarse(0, 100, 0.25);
        j.set("FailSafePercent", J::number(info.failSafePercent));
    }
    J p = J::obj();
    auto need = [&](const char* n, double& v) {
        v = anyNum(r);
        p.set(n, J::number(v));
    };
    auto opt = [&](const char* n, double& v) {
        v = 0;
        if (r.chance(0.4)) need(n, v);
    };
    bool check = false;
    if (info.type != "stepwise")
    {
        auto& q = info.pidInfo;
        need("samplePeriod", q.ts);
        need("proportionalCoeff", q.proportionalCoeff);
        need("integralCoeff", q.integralCoeff);
        need("feedFwdOffsetCoeff", q.feedFwdOffset);
        need("feedFwdGainCoeff", q.feedFwdGain);
        need("integralLimit_min", q.integralLimit.min);
        need("integralLimit_max", q.integralLimit.max);
        need("outLim_min", q.outLim.min);
        need("outLim_max", q.outLim.max);
        need("slewNeg", q.slewNeg);
        need("slewPos", q.slewPos);
        opt("derivativeCoeff", q.derivativeCoeff);
        opt("positiveHysteresis", q.positiveHysteresis);
        opt("negativeHysteresis", q.negativeHysteresis);
        if (r.chance(0.4))
        {
            check = r.chance(0.5);
            p.set("checkHysteresisWithSetpoint", J::boolean(check));
        }
        q.checkHysterWithSetpt = check;
    }
    else
    {
        auto& q = info.stepwiseInfo;
        need("samplePeriod", q.ts);
        q.isCeiling = r.chance(0.5);
        p.set("isCeiling", J::boolean(q.isCeiling));
        opt("positiveHysteresis", q.positiveHysteresis);
        opt("negativeHysteresis", q.negativeHysteresis);
        for (auto which : {"reading", "output"})
        {
            auto* t = which[0] == 'r' ? q.reading : q.output;
            for (size_t i = 0; i < 20; i++) t[i] = vp::NaN;
            if (r.chance(0.1)) continue; // absent
            J o = J::obj();
            int k = int(r.chance(0.2) ? 20 : r.range(0, 20));
            for (int i = 0; i < k; i++)
            {
                if (r.chance(0.03)) continue; // a hole
                t[i] = anyNum(r);
                o.set(std::to_string(i), J::number(t[i]));
            }
            p.set(which, o);
        }
    }
    j.set("pid", p);
    conf[name] = info;
    arr.a.push_back(j);
}

Doc genDoc(Case& c)
{
    auto& r = c.rng;
    Doc d;
    J sensors = J::arr();
    int n = int(r.range(1, 6));
    for (int i = 0; i < n; i++) genSensor(c, d, sensors, word(r) + std::to_string(i));
    d.root.set("sensors", sensors);
    J zones = J::arr();
    int nz = int(r.range(1, 3));
    std::vector<int64_t> ids{0, 1, 2, 3, 7, 64, 200, 255, 1000, -1};
    r.shuffle(ids);
    for (int i = 0; i < nz; i++)
    {
        J z = J::obj();
        int64_t id = ids[size_t(i)];
        conf::ZoneConfig zc{};
        z.set("id", J::integer(id));
        zc.minThermalOutput = anyNum(r);
        z.set("minThermalOutput", J::number(zc.minThermalOutput));
        zc.failsafePercent = r.chance(0.05) ? r.of({101.0, 255.0, 300.0, 100000.0}) : r.coarse(0, 100, 0.125);
        z.set("failsafePercent", J::number(zc.failsafePercent));
        zc.cycleTime.cycleIntervalTimeMS = 100;
        zc.cycleTime.updateThermalsTimeMS = 1000;
        auto cyc = [&](const char* k, uint64_t& v) {
            if (!r.chance(0.5)) return;
            int64_t x = anyInt(r);
            z.set(k, J::integer(x));
            if (x >= 1) v = uint64_t(x);
        };
        cyc("cycleIntervalTimeMS", zc.cycleTime.cycleIntervalTimeMS);
        cyc("updateThermalsTimeMS", zc.cycleTime.updateThermalsTimeMS);
        zc.accumulateSetPoint = false;
        if (r.chance(0.4))
        {
            zc.accumulateSetPoint = r.chance(0.5);
            z.set("accumulateSetPoint", J::boolean(zc.accumulateSetPoint));
        }
        J ps = J::arr();
        conf::PIDConf pc;
        int np = int(r.range(1, 5));
        for (int k = 0; k < np; k++) genController(c, pc, ps, word(r) + std::to_string(k));
        z.set("pids", ps);
        d.zones[id] = zc;
        d.pids[id] = pc;
        zones.a.push_back(z);
    }
    d.root.set("zones", zones);
    return d;
}

bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
std::string show(const conf::SensorConfig& s)
{
    std::ostringstream o;
    o << s.type << " read=" << s.readPath << " write=" << s.writePath << " min=" << s.min << " max=" << s.max
      << " timeout=" << s.timeout << " ignoreMinMax=" << s.ignoreDbusMinMax << " unavailableAsFailed="
      << s.unavailableAsFailed << " ignoreFailIfHostOff=" << s.ignoreFailIfHostOff;
    return o.str();
}
bool same(const conf::SensorConfig& a, const conf::SensorConfig& b) { return show(a) == show(b); }
// names the first difference, or nothing
std::string diffInfo(const conf::ControllerInfo& g, const conf::ControllerInfo& e, bool inputs, bool stepSetpoint)
{
    auto n = [](const char* f, double x, double y) {
        return std::string(f) + " is " + num(x) + ", expected " + num(y);
    };
#define F(field)                                                                                    \
    if (!same(double(g.field), double(e.field))) return n(#field, double(g.field), double(e.field))
    if (g.type != e.type) return "type is " + g.type + ", expected " + e.type;
    if (e.type != "stepwise" || stepSetpoint) F(setpoint);
    F(failSafePercent);
    if (inputs)
    {
        if (g.inputs.size() != e.inputs.size())
            return n("number of inputs", double(g.inputs.size()), double(e.inputs.size()));
        for (size_t i = 0; i < g.inputs.size(); i++)
        {
            auto &x = g.inputs[i], &y = e.inputs[i];
            if (x.name != y.name) return "input " + std::to_string(i) + " is " + x.name + ", expected " + y.name;
            if (x.convertTempToMargin != y.convertTempToMargin || x.missingIsAcceptable != y.missingIsAcceptable)
                return "input " + x.name + " has convertTempToMargin=" + std::to_string(x.convertTempToMargin) +
                       " missingIsAcceptable=" + std::to_string(x.missingIsAcceptable) + ", expected " +
                       std::to_string(y.convertTempToMargin) + " " + std::to_string(y.missingIsAcceptable);
            if (y.convertTempToMargin && !same(x.convertMarginZero, y.convertMarginZero))
                return n("convertMarginZero", x.convertMarginZero, y.convertMarginZero);
        }
    }
    if (e.type != "stepwise")
    {
        F(pidInfo.ts);
        F(pidInfo.proportionalCoeff);
        F(pidInfo.integralCoeff);
        F(pidInfo.derivativeCoeff);
        F(pidInfo.feedFwdOffset);
        F(pidInfo.feedFwdGain);
        F(pidInfo.integralLimit.min);
        F(pidInfo.integralLimit.max);
        F(pidInfo.outLim.min);
        F(pidInfo.outLim.max);
        F(pidInfo.slewNeg);
        F(pidInfo.slewPos);
        F(pidInfo.positiveHysteresis);
        F(pidInfo.negativeHysteresis);
        F(pidInfo.checkHysterWithSetpt);
    }
    else
    {
        F(stepwiseInfo.ts);
        F(stepwiseInfo.positiveHysteresis);
        F(stepwiseInfo.negativeHysteresis);
        F(stepwiseInfo.isCeiling);
    }
#undef F
    return "";
}

void writeDoc(Case& c, const std::string& path, const J& j)
{
    std::ostringstream os;
    emit(os, c.rng, j);
    vp::writeFile(path, os.str());
    c.log << os.str() << "\n";
    c.sig(os.str());
}

// ---------------------------------------------------------------- C14
void jsonValid(Case& c)
{
    auto& r = c.rng;
    vp::Silence sil;
    Doc d = genDoc(c);
    if (r.chance(0.7)) scramble(d.root, r, {});
    std::string path = c.dir() + "/config.json";
    writeDoc(c, path, d.root);
    std::map<std::string, conf::SensorConfig> sensors;
    std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>> z;
    try
    {
        auto doc = parseValidateJson(path);
        sensors = buildSensorsFromJson(doc);
        z = buildPIDsFromJson(doc);
    }
    catch (const std::exception& e)
    {
        c.fail("json-refused", std::string("a valid configuration is refused: ") + e.what());
    }
    VP_CHECK(c, sensors.size() == d.sensors.size(), "json-sensors",
             sensors.size() << " sensors from a configuration of " << d.sensors.size());
    for (auto& [n, e] : d.sensors)
    {
        auto g = sensors.find(n);
        VP_CHECK(c, g != sensors.end(), "json-sensor-lost", "sensor '" << n << "' is not in the configuration");
        VP_CHECK(c, same(g->second, e), "json-sensor-field",
                 "sensor '" << n << "' became " << show(g->second) << ", expected " << show(e));
        c.count("sensor records compared");
    }
    VP_CHECK(c, z.first.size() == d.pids.size() && z.second.size() == d.zones.size(), "json-zones",
             z.first.size() << "/" << z.second.size() << " zones from a configuration of " << d.zones.size());
    for (auto& [id, e] : d.zones)
    {
        VP_CHECK(c, z.second.count(id) && z.first.count(id), "json-zone-lost", "zone " << id << " is lost");
        auto& g = z.second[id];
        VP_CHECK(c,
                 same(g.minThermalOutput, e.minThermalOutput) && same(g.failsafePercent, e.failsafePercent) &&
                     g.cycleTime.cycleIntervalTimeMS == e.cycleTime.cycleIntervalTimeMS &&
                     g.cycleTime.updateThermalsTimeMS == e.cycleTime.updateThermalsTimeMS &&
                     g.accumulateSetPoint == e.accumulateSetPoint,
                 "json-zone-field",
                 "zone " << id << " has min " << num(g.minThermalOutput) << " failsafe " << num(g.failsafePercent)
                         << " cycle " << g.cycleTime.cycleIntervalTimeMS << " thermal "
                         << g.cycleTime.updateThermalsTimeMS << " accumulate " << g.accumulateSetPoint
                         << ", expected " << num(e.minThermalOutput) << " " << num(e.failsafePercent) << " "
                         << e.cycleTime.cycleIntervalTimeMS << " " << e.cycleTime.updateThermalsTimeMS << " "
                         << e.accumulateSetPoint);
        c.count("zone records compared");
        auto& gp = z.first[id];
        auto& ep = d.pids[id];
        VP_CHECK(c, gp.size() == ep.size(), "json-controllers",
                 "zone " << id << " has " << gp.size() << " controllers, expected " << ep.size());
        for (auto& [n, ei] : ep)
        {
            auto it = gp.find(n);
            VP_CHECK(c, it != gp.end(), "json-controller-lost", "controller '" << n << "' is lost");
            auto diff = diffInfo(it->second, ei, true, false);
            VP_CHECK(c, diff.empty(), "json-controller-field", "controller '" << n << "': " << diff);
            if (ei.type == "stepwise")
                for (size_t i = 0; i < ec::maxStepwisePoints; i++)
                    VP_CHECK(c,
                             same(it->second.stepwiseInfo.reading[i], ei.stepwiseInfo.reading[i]) &&
                                 same(it->second.stepwiseInfo.output[i], ei.stepwiseInfo.output[i]),
                             "json-step-point",
                             "controller '" << n << "' point " << i << " is "
                                            << num(it->second.stepwiseInfo.reading[i]) << " -> "
                                            << num(it->second.stepwiseInfo.output[i]) << ", expected "
                                            << num(ei.stepwiseInfo.reading[i]) << " -> "
                                            << num(ei.stepwiseInfo.output[i]));
            c.count("controller records compared");
            c.sig(ei.type);
            c.sig(uint64_t(ei.inputs.size()));
        }
        c.sig(uint64_t(ep.size()));
    }
    if (d.sensors.size() > 1 && d.zones.size() > 1) c.nontrivial();
}

J wrong(vp::Rng& r, std::initializer_list<J::Kind> ok)
{
    for (;;)
    {
        J j;
        j.k = r.of<J::Kind>({J::Null, J::Bool, J::Num, J::Str, J::Arr, J::Obj});
        if (std::find(ok.begin(), ok.end(), j.k) != ok.end()) continue;
        if (j.k == J::Str) j.s = r.of<std::string>({"", "12", "true", "x"});
        if (j.k == J::Num) j.d = r.of({0.0, 1.0, 3.5});
        if (j.k == J::Bool) j.b = r.chance(0.5);
        if (j.k == J::Arr && r.chance(0.5)) j.a.push_back(J::number(3));
        if (j.k == J::Obj && r.chance(0.5)) j.set("0", J::number(3));
        return j;
    }
}

// one required part missing or one value of the wrong kind
void jsonBroken(Case& c)
{
    auto& r = c.rng;
    vp::Silence sil;
    Doc d = genDoc(c);
    auto& sensors = *d.root.get("sensors");
    auto& zones = *d.root.get("zones");
    std::string what;
    auto dropOne = [&](J& j, std::vector<std::string> keys) {
        auto k = r.pick(keys);
        j.drop(k);
        what += "without " + k;
    };
    auto bend = [&](J& j, std::vector<std::string> keys, std::initializer_list<J::Kind> ok) {
        std::vector<std::string> have;
        for (auto& k : keys)
            if (j.get(k)) have.push_back(k);
        auto k = have.empty() || r.chance(0.2) ? r.pick(keys) : r.pick(have);
        j.drop(k);
        auto& v = j.set(k, wrong(r, ok));
        what += k + " of the wrong kind (" + std::to_string(int(v.k)) + ")";
    };
    auto& sensor = r.pick(sensors.a);
    auto& zone = r.pick(zones.a);
    auto& pid = r.pick(zone.get("pids")->a);
    auto& p = *pid.get("pid");
    bool step = pid.get("type")->s == "stepwise";
    const auto numK = {J::Num, J::Int};
    switch (r.range(0, 17))
    {
        case 17:
            pid.get("type")->s = r.of<std::string>({"", "Temp", "temperature", "fans", "Stepwise", "step", "powerSum", "none", "margin ", "xyz.openbmc_project.Configuration.Pid"});
            what = "a controller of the type '" + pid.get("type")->s + "'";
            break;
        case 0:
            dropOne(d.root, {"sensors", "zones"});
            break;
        case 1:
            if (r.chance(0.5)) sensors.a.clear(), what = "no sensors";
            else zone.get("pids")->a.clear(), what = "a zone without controllers";
            break;
        case 2:
            what = "sensor ";
            dropOne(sensor, {"name", "type"});
            break;
        case 3:
            what = "zone ";
            dropOne(zone, {"id", "minThermalOutput", "failsafePercent", "pids"});
            break;
        case 4:
            what = "controller ";
            dropOne(pid, step ? std::vector<std::string>{"name", "type", "inputs", "pid"}
                              : std::vector<std::string>{"name", "type", "inputs", "setpoint", "pid"});
            break;
        case 5:
        case 6:
            what = "controller pid ";
            if (step) dropOne(p, {"samplePeriod", "isCeiling"});
            else
                dropOne(p, {"samplePeriod", "proportionalCoeff", "integralCoeff", "feedFwdOffsetCoeff",
                            "feedFwdGainCoeff", "integralLimit_min", "integralLimit_max", "outLim_min",
                            "outLim_max", "slewNeg", "slewPos"});
            break;
        case 7:
            what = "sensor ";
            bend(sensor, {"name", "type", "readPath", "writePath"}, {J::Str});
            break;
        case 8:
            what = "sensor ";
            bend(sensor, {"ignoreDbusMinMax", "unavailableAsFailed", "ignoreFailIfHostOff"}, {J::Bool});
            break;
        case 9:
            what = "sensor ";
            if (sensor.get("type")->s == "fan") bend(sensor, {"timeout", "min", "max"}, numK);
            else bend(sensor, {"timeout"}, numK);
            break;
        case 10:
            what = "zone ";
            bend(zone, {"id", "minThermalOutput", "failsafePercent", "cycleIntervalTimeMS", "updateThermalsTimeMS"},
                 numK);
            break;
        case 11:
            what = "zone ";
            if (r.chance(0.5)) bend(zone, {"accumulateSetPoint"}, {J::Bool});
            else bend(zone, {"pids"}, {J::Arr, J::Obj});
            break;
        case 12:
            what = "controller ";
            bend(pid, {"name", "type"}, {J::Str});
            break;
        case 13:
            what = "controller ";
            if (r.chance(0.5)) bend(pid, {"inputs", "tempToMargin", "missingIsAcceptable"}, {J::Arr});
            else
            {
                auto k = r.of<std::string>({"inputs", "tempToMargin", "missingIsAcceptable"});
                if (!pid.get(k)) pid.set(k, J::arr());
                auto& arr = *pid.get(k);
                auto v = k == "tempToMargin" ? wrong(r, numK) : wrong(r, {J::Str});
                arr.a.insert(arr.a.begin() + r.range(0, int64_t(arr.a.size())), v);
                what += k + " with an element of the wrong kind";
            }
            break;
        case 14:
            what = "controller ";
            if (r.chance(0.5)) bend(pid, {"pid"}, {J::Obj});
            else if (step) bend(pid, {"FailSafePercent"}, numK);
            else bend(pid, {"setpoint", "FailSafePercent"}, numK);
            break;
        case 15:
            what = "controller pid ";
            if (step)
            {
                if (r.chance(0.3)) bend(p, {"isCeiling"}, {J::Bool});
                else if (r.chance(0.5)) bend(p, {"samplePeriod", "positiveHysteresis", "negativeHysteresis"}, numK);
                else
                {
                    auto k = r.of<std::string>({"reading", "output"});
                    if (r.chance(0.5) || !p.get(k)) bend(p, {k}, {J::Obj});
                    else
                    {
                        auto i = std::to_string(r.range(0, 19));
                        p.get(k)->drop(i);
                        p.get(k)->set(i, wrong(r, numK));
                        what += k + " " + i + " of the wrong kind";
                    }
                }
            }
            else if (r.chance(0.15)) bend(p, {"checkHysteresisWithSetpoint"}, {J::Bool});
            else
                bend(p, {"samplePeriod", "proportionalCoeff", "integralCoeff", "derivativeCoeff",
                         "feedFwdOffsetCoeff", "feedFwdGainCoeff", "integralLimit_min", "integralLimit_max",
                         "outLim_min", "outLim_max", "slewNeg", "slewPos", "positiveHysteresis",
                         "negativeHysteresis"}, numK);
            break;
        default: // something that is not a record where a record belongs
            switch (r.range(0, 3))
            {
                case 0: sensors.a.insert(sensors.a.begin(), wrong(r, {J::Obj})); what = "a sensor that is no record"; break;
                case 1: zones.a.push_back(wrong(r, {J::Obj})); what = "a zone that is no record"; break;
                case 2: zone.get("pids")->a.push_back(wrong(r, {J::Obj})); what = "a controller that is no record"; break;
                default: d.root = wrong(r, {J::Obj}); what = "a document that is no record";
            }
    }
    bool text = r.chance(0.1); // not JSON at all, the content being fine
    if (text)
    {
        d = genDoc(c);
        what.clear();
    }
    if (r.chance(0.3)) scramble(d.root, r, {});
    std::string path = c.dir() + "/config.json";
    if (!text) c.log << what << "\n";
    if (text)
    {
        std::ostringstream os;
        emit(os, r, d.root);
        std::string t = os.str();
        auto last = t.find_last_not_of(" \t\r\n");
        std::string head = t.substr(0, last), tail = t.substr(last);
        switch (r.range(0, 6))
        {
            case 0:
                what = "a document cut short";
                t = t.substr(0, size_t(r.range(0, int64_t(last))));
                break;
            case 1:
                what = "something after the document";
                t += r.of<std::string>({"}", "{}", ",", "x", "]", "0", "\"", "null"});
                break;
            case 2:
                what = "a comment";
                t = r.chance(0.5) ? "// fans\n" + t : r.chance(0.5) ? t + "/* end */" : "# fans\n" + t;
                break;
            case 3:
                what = "a comma too many";
                t = head + "," + tail;
                break;
            case 4:
                what = "something before the document";
                t = r.of<std::string>({"{", "[", ",", "=", "a", "\xff"}) + t;
                break;
            case 5:
                what = "a name without quotes";
                t = head + ", more: 1" + tail;
                break;
            default:
                what = "a colon missing";
                t = head + ", \"more\" 1" + tail;
        }
        vp::writeFile(path, t);
        c.log << t << "\n";
        c.sig(t);
    }
    else writeDoc(c, path, d.root);
    bool refused = false;
    std::string why;
    try
    {
        auto doc = parseValidateJson(path);
        auto s = buildSensorsFromJson(doc);
        auto z = buildPIDsFromJson(doc);
    }
    catch (const std::exception& e)
    {
        refused = true;
        why = e.what();
    }
    VP_CHECK(c, refused, "json-accepted", "a configuration is accepted that has: " << what);
    c.count("broken configurations refused");
    c.sig(what);
    c.nontrivial();
}

// text that was cut, overwritten or spliced
void jsonText(Case& c)
{
    auto& r = c.rng;
    vp::Silence sil;
    Doc d = genDoc(c);
    std::ostringstream os;
    emit(os, r, d.root);
    std::string t = os.str();
    for (int k = int(r.range(1, 6)); k > 0 && !t.empty(); k--)
    {
        size_t at = size_t(r.range(0, int64_t(t.size()) - 1));
        switch (r.range(0, 6))
        {
            case 0: t.resize(at); break;
            case 1: t.erase(at, size_t(r.range(1, 8))); break;
            case 2: t.insert(at, r.of<std::string>({"{", "}", "[", "]", ",", ":", "\"", "\\", "\\u12", "\\ud800",
                                                     "null", "-", "0", ".", "//", "/*", "\xff", "\xc3", "\xef\xbb\xbf"})); break;
            case 3: t.insert(at, std::string(1, '\0')); break;
            case 4: t[at] = char(r.range(0, 255)); break;
            case 5: t.insert(at, std::string(size_t(r.range(1, 400)), r.of<char>({'[', '{', '"', ' '}))); break;
            default:
            {
                size_t from = size_t(r.range(0, int64_t(t.size()) - 1));
                t.insert(at, t.substr(from, size_t(r.range(1, 60))));
            }
        }
    }
    // numbers no integer can hold are outside what is specified
    for (size_t i = 0, run = 0; i < t.size(); i++)
    {
        bool dig = t[i] >= '0' && t[i] <= '9';
        run = dig ? run + 1 : 0;
        if (run > 17 || ((t[i] == 'e' || t[i] == 'E') && i && ((t[i - 1] >= '0' && t[i - 1] <= '9') || t[i - 1] == '.')))
            t[i] = ' ', run = 0;
    }
    std::string path = c.dir() + "/config.json";
    vp::writeFile(path, t);
    c.log << t << "\n";
    c.sig(t);
    bool parsed = false, loaded = false;
    try
    {
        auto doc = parseValidateJson(path);
        parsed = true;
        auto s = buildSensorsFromJson(doc);
        auto z = buildPIDsFromJson(doc);
        loaded = true;
    }
    catch (const std::exception& e)
    {
        c.sig(std::string(e.what()).substr(0, 40));
    }
    // what is not JSON is refused (an independent reading of the text)
    bool isJson = nlohmann::json::accept(t);
    VP_CHECK(c, isJson || !parsed, "json-text", "text that is not JSON is accepted");
    c.count(loaded ? "mutated texts loaded" : parsed ? "mutated texts refused by a loader" : "mutated texts refused by the parser");
    if (!loaded) c.nontrivial();
    // a file that cannot be read is refused
    bool threw = false;
    try
    {
        parseValidateJson(c.dir() + "/absent.json");
    }
    catch (const std::exception&)
    {
        threw = true;
    }
    VP_CHECK(c, threw, "json-nofile", "a missing file is accepted");
}
// ---------------------------------------------------------------- C15
constexpr auto VALUE = "xyz.openbmc_project.Sensor.Value";
constexpr auto CRIT = "xyz.openbmc_project.Sensor.Threshold.Critical";
constexpr auto WARN = "xyz.openbmc_project.Sensor.Threshold.Warning";
constexpr auto FANPWM = "xyz.openbmc_project.Control.FanPwm";
constexpr auto PIDIF = "xyz.openbmc_project.Configuration.Pid";
constexpr auto ZONEIF = "xyz.openbmc_project.Configuration.Pid.Zone";
constexpr auto STEPIF = "xyz.openbmc_project.Configuration.Stepwise";
constexpr auto MODEIF = "xyz.openbmc_project.Control.ThermalMode";
constexpr auto OMIF = "org.freedesktop.DBus.ObjectManager";

// one item of Inputs, MissingIsAcceptable or Outputs and what it stands for
struct Item
{
    std::string text;
    std::vector<std::string> paths; // on the bus
};
struct Expect // a controller
{
    conf::ControllerInfo info;
    // groups of inputs whose order inside the group is the bus's business
    struct Group
    {
        std::vector<conf::SensorInput> in; // names
        std::vector<double> margins;       // of the group's places (NaN: none)
    };
    std::vector<Group> groups;
    std::vector<double> reading, output;
};
struct ZoneObj
{
    std::string name;
    conf::ZoneConfig cfg{};
    bool explicitIndex = false;
    int64_t index = 0;
};
struct BusCfg
{
    std::vector<ZoneObj> zones;
    std::map<std::string, std::map<std::string, Expect>> ctl; // zone name -> controller name -> record
    std::set<std::string> mentioned; // zone names in the Zones of a controller
    std::map<std::string, std::vector<conf::SensorConfig>> sensors; // allowed records
    std::set<std::string> cfgSvc, profiles;
    bool filtering = false;
    // for breaking it afterwards
    std::vector<std::pair<std::string, std::string>> pidObjs, stepObjs, zoneObjs; // service, path
};
struct World
{
    std::map<std::string, std::string> tach, temp, pwm; // name -> path (on the bus)
};

std::string tail(const std::string& p) { return p.substr(p.rfind('/') + 1); }
std::string under(std::string s)
{
    std::replace(s.begin(), s.end(), ' ', '_');
    return s;
}
simbus::Val numVal(vp::Rng& r, double v)
{
    if (v == std::floor(v) && std::fabs(v) < 1e15)
        switch (r.range(0, 3))
        {
            case 0: return toVal(int64_t(v));
            case 1: if (v >= 0) return toVal(uint64_t(v));
        }
    return toVal(v);
}

World genWorld(Case& c)
{
    auto& r = c.rng;
    auto& sim = Sim::get();
    World w;
    auto add = [&](auto& m, const std::string& layer, const std::string& name, double p, bool th = false) {
        if (!r.chance(p)) return;
        std::string path = "/xyz/openbmc_project/sensors/" + layer + "/" + name;
        auto& o = sim.services["svc.Sensors" + std::to_string(r.range(0, 2))][path];
        o[VALUE]["Value"] = toVal(25.0);
        if (th)
        {
            o[CRIT];
            o[WARN];
            for (auto [i, n] : {std::pair{CRIT, "CriticalHigh"}, {CRIT, "CriticalLow"}, {WARN, "WarningHigh"}, {WARN, "WarningLow"}})
                if (r.chance(0.75)) o[i][n] = toVal(r.coarse(-20, 110, 0.25));
        }
        m[name] = path;
    };
    double have = r.of({1.0, 1.0, 0.95, 0.8});
    for (auto n : {"CPU_Temp", "Inlet", "DIMM_A1", "DIMM_A2", "DIMM_B1", "VRM"}) add(w.temp, "temperature", n, have, true);
    add(w.temp, "power", "PSU_Power", have, true);
    for (auto n : {"Fan_1", "Fan_2", "Fan_3", "Fan_4"}) add(w.tach, "fan_tach", n, have);
    std::map<std::string, std::string> decoy;
    for (auto n : {"XInlet", "Inlet2", "CPU_Temp_2", "Fan_11", "XFan_1", "DIMM"}) add(decoy, "temperature", n, 0.5, true);
    // names that differ in case only
    for (auto n : {"inlet", "INLET", "cpu_temp", "dimm_a1", "vrm"}) add(decoy, "temperature", n, 0.3, true);
    for (auto n : {"fan_1", "FAN_2"}) add(decoy, "fan_tach", n, 0.3);
    for (auto n : {"Pwm_1", "Pwm_2", "Pwm_3", "Pwm_4"})
    {
        if (r.chance(have))
        {
            std::string path = "/xyz/openbmc_project/control/fanpwm/" + std::string(n);
            sim.services["svc.Fans"][path][FANPWM]["Target"] = toVal(uint64_t(100));
            w.pwm[n] = path;
        }
        if (r.chance(0.6)) // the sensor beside the control
            sim.services["svc.Fans"]["/xyz/openbmc_project/sensors/fan_pwm/" + std::string(n)][VALUE]["Value"] = toVal(40.0);
    }
    return w;
}
Item item(const std::string& text, const std::map<std::string, std::string>& on, std::vector<std::string> names)
{
    Item i{text, {}};
    for (auto& n : names)
        if (on.count(n)) i.paths.push_back(on.at(n));
    return i;
}
std::vector<Item> tempItems(vp::Rng& r, const World& w)
{
    std::vector<Item> all;
    all.push_back(r.chance(0.5) ? item("CPU Temp", w.temp, {"CPU_Temp"}) : item("CPU_Temp", w.temp, {"CPU_Temp"}));
    all.push_back(item("Inlet", w.temp, {"Inlet"}));
    all.push_back(item("VRM", w.temp, {"VRM"}));
    all.push_back(r.chance(0.5) ? item("PSU Power", w.temp, {"PSU_Power"}) : item("PSU_Power", w.temp, {"PSU_Power"}));
    all.push_back(Item{r.of<std::string>({"Gone Temp", "Gone", "Ghost_1"}), {}});
    switch (r.range(0, 3))
    {
        case 0:
            all.push_back(item("DIMM_A1", w.temp, {"DIMM_A1"}));
            all.push_back(item("DIMM A2", w.temp, {"DIMM_A2"}));
            all.push_back(item("DIMM_B1", w.temp, {"DIMM_B1"}));
            break;
        case 1:
            all.push_back(item("DIMM_.*", w.temp, {"DIMM_A1", "DIMM_A2", "DIMM_B1"}));
            break;
        case 2:
            all.push_back(item("DIMM A[0-9]", w.temp, {"DIMM_A1", "DIMM_A2"}));
            all.push_back(item("DIMM_B1", w.temp, {"DIMM_B1"}));
            break;
        default:
            all.push_back(item("(DIMM_A1|DIMM_B1)", w.temp, {"DIMM_A1", "DIMM_B1"}));
    }
    // an absent item that other names contain
    if (r.chance(0.3)) all.push_back(Item{r.of<std::string>({"Temp", "Inle", "IMM_A1", "ower"}), {}});
    r.shuffle(all);
    all.resize(size_t(r.range(1, std::min<int64_t>(5, int64_t(all.size())))));
    return all;
}
std::vector<std::string> texts(const std::vector<Item>& v)
{
    std::vector<std::string> o;
    for (auto& i : v) o.push_back(i.text);
    return o;
}

conf::SensorConfig sensorRec(const std::string& type, const std::string& path, bool unav, bool off)
{
    conf::SensorConfig s{};
    s.type = type;
    s.readPath = path;
    s.ignoreDbusMinMax = true;
    s.unavailableAsFailed = unav;
    s.ignoreFailIfHostOff = off;
    return s;
}

// a controller object; returns false when the whole configuration must be refused
bool genCtl(Case& c, BusCfg& b, const World& w, int no, std::set<std::string>& offsetUsed, std::set<std::string>& fanUsed)
{
    auto& r = c.rng;
    auto& sim = Sim::get();
    std::string svc = *std::next(b.cfgSvc.begin(), r.range(0, int64_t(b.cfgSvc.size()) - 1));
    std::string name = r.of<std::string>({"Ctl ", "loop_", "Fan Ctl "}) + std::to_string(no);
    std::string path = "/xyz/openbmc_project/inventory/system/board/B/C" + std::to_string(no);
    std::string cls = r.of<std::string>({"temp", "margin", "power", "powersum", "fan", "fan", "stepwise", "stepwise"});
    bool step = cls == "stepwise";
    auto& p = sim.services[svc][path][step ? STEPIF : PIDIF];
    if (r.chance(0.3)) sim.services[svc][path]["xyz.openbmc_project.Inventory.Item"]["Present"] = toVal(true);
    (step ? b.stepObjs : b.pidObjs).push_back({svc, path});
    p["Name"] = toVal(name);
    Expect e{};
    e.info.type = cls;
    std::vector<std::string> zs;
    for (auto& z : b.zones)
        if (zs.empty() || r.chance(0.3)) zs.push_back(z.name);
    r.shuffle(zs);
    if (zs.empty() || r.chance(0.04)) zs.push_back("Nowhere");
    if (zs.size() > 1 && r.chance(0.5)) zs.resize(1);
    p["Zones"] = toVal(zs);

    bool selected = true;
    if (r.chance(0.4))
    {
        std::vector<std::string> pr;
        for (auto n : {"Acoustic", "Performance", "Silent"})
            if (r.chance(0.4)) pr.push_back(n);
        p["Profiles"] = toVal(pr);
        if (b.filtering && !pr.empty())
        {
            selected = false;
            for (auto& n : pr)
                if (b.profiles.count(n)) selected = true;
        }
    }
    auto put = [&](const char* n, double& v) {
        v = anyNum(r);
        p[n] = numVal(r, v);
    };
    auto opt = [&](const char* n, double& v) {
        v = 0;
        if (r.chance(0.45)) put(n, v);
    };
    bool unav = true, off = false;
    if (r.chance(0.45)) p["InputUnavailableAsFailed"] = toVal(unav = r.chance(0.5));
    if (r.chance(0.35)) p["IgnoreFailIfHostOff"] = toVal(off = r.chance(0.5));

    std::vector<Item> in, acc, outs;
    bool refused = false;
    if (cls == "fan")
    {
        std::vector<std::string> idx{"1", "2", "3", "4"};
        r.shuffle(idx);
        idx.resize(size_t(r.range(1, 4)));
        for (auto& i : idx)
        {
            if (fanUsed.count(i)) continue;
            fanUsed.insert(i);
            in.push_back(item(r.chance(0.5) ? "Fan " + i : "Fan_" + i, w.tach, {"Fan_" + i}));
            outs.push_back(item(r.chance(0.5) ? "Pwm " + i : "Pwm_" + i, w.pwm, {"Pwm_" + i}));
        }
        if (in.empty())
        {
            sim.services[svc].erase(path);
            b.pidObjs.pop_back();
            return true;
        }
        if (r.chance(0.35)) outs.resize(1);
        else if (r.chance(0.1)) outs.pop_back();
        p["Outputs"] = toVal(texts(outs));
        size_t found = 0;
        for (auto& i : in) found += i.paths.size();
        if (outs.size() == 1 && outs[0].paths.size() == 1) {}
        else
        {
            std::vector<size_t> pi, po;
            for (size_t k = 0; k < in.size(); k++)
                if (!in[k].paths.empty()) pi.push_back(k);
            for (size_t k = 0; k < outs.size(); k++)
                if (!outs[k].paths.empty()) po.push_back(k);
            if (pi != po) refused = true;
        }
    }
    else in = tempItems(r, w);
    p["Inputs"] = toVal(texts(in));
    if (r.chance(0.5))
    {
        for (auto& i : in)
            if (r.chance(0.4)) acc.push_back(i);
        if (r.chance(0.3) && cls != "fan") acc.push_back(item("VRM", w.temp, {"VRM"}));
        if (r.chance(0.3)) acc.push_back(Item{"Nobody", {}});
        r.shuffle(acc);
        p["MissingIsAcceptable"] = toVal(texts(acc));
    }
    auto accText = texts(acc);
    auto acceptable = [&](const std::string& path) {
        for (auto& i : acc)
            if (std::find(i.paths.begin(), i.paths.end(), path) != i.paths.end()) return true;
        return false;
    };
    std::vector<double> margins;
    if (cls != "fan" && r.chance(0.4))
    {
        for (int k = int(r.range(0, 6)); k > 0; k--) margins.push_back(r.coarse(40, 110, 0.5));
        p["TempToMargin"] = toVal(margins);
    }
    std::string offset;
    bool offsetOk = cls != "fan" && !step && r.chance(0.25);
    if (offsetOk)
        for (auto& i : in)
        {
            if (i.paths.empty()) offsetOk = !HANDLE_MISSING_OBJECT_PATHS && offsetOk;
            for (auto& q : i.paths)
                if (offsetUsed.count(tail(q))) offsetOk = false;
        }
    if (offsetOk)
    {
        offset = r.of<std::string>({"CriticalLow", "CriticalHigh", "WarningLow", "WarningHigh"});
        p["SetPointOffset"] = toVal(offset);
        for (auto& i : in)
            for (auto& q : i.paths) offsetUsed.insert(tail(q));
    }
    // the inputs: places, margins, sensors
    std::vector<std::pair<std::string, conf::SensorConfig>> recs;
    size_t place = 0;
    auto marginAt = [&](size_t k) { return k < margins.size() ? margins[k] : vp::NaN; };
    for (size_t k = 0; k < in.size(); k++)
    {
        auto& i = in[k];
        Expect::Group g;
        if (i.paths.empty())
        {
            bool ok = std::find(accText.begin(), accText.end(), i.text) != accText.end();
            if (HANDLE_MISSING_OBJECT_PATHS && cls != "fan" && !ok)
            {
                std::string type = step ? "temp" : cls, n = under(i.text);
                std::string layer = type.starts_with("power") ? "power" : "temperature";
                conf::SensorInput si;
                si.name = n;
                g.in.push_back(si);
                g.margins.push_back(marginAt(place));
                recs.push_back({n, sensorRec(type, "/xyz/openbmc_project/sensors/" + layer + "/" + n, unav, off)});
            }
            place++;
        }
        for (auto& q : i.paths)
        {
            conf::SensorInput si;
            si.name = tail(q);
            si.missingIsAcceptable = acceptable(q);
            if (cls == "fan")
            {
                std::string pw = outs.size() == 1 ? (outs[0].paths.empty() ? "" : outs[0].paths[0])
                                 : k < outs.size() && !outs[k].paths.empty() ? outs[k].paths[0]
                                                                            : "";
                si.name += tail(pw);
                conf::SensorConfig s{};
                s.type = "fan";
                s.readPath = q;
                s.writePath = pw;
                s.max = 255;
                recs.push_back({si.name, s});
            }
            else recs.push_back({si.name, sensorRec(step ? "temp" : cls, q, unav, off)});
            g.in.push_back(si);
            g.margins.push_back(cls == "fan" ? vp::NaN : marginAt(place));
            place++;
        }
        if (!g.in.empty()) e.groups.push_back(g);
    }
    // the numbers
    if (!step)
    {
        p["Class"] = toVal(cls);
        double sp = anyNum(r);
        if (cls != "fan" || r.chance(0.5)) p["SetPoint"] = numVal(r, sp);
        e.info.setpoint = cls == "fan" ? 0 : sp;
        opt("FailSafePercent", e.info.failSafePercent);
        auto& q = e.info.pidInfo;
        q.ts = 1;
        put("PCoefficient", q.proportionalCoeff);
        put("ICoefficient", q.integralCoeff);
        put("FFOffCoefficient", q.feedFwdOffset);
        put("FFGainCoefficient", q.feedFwdGain);
        put("ILimitMax", q.integralLimit.max);
        put("ILimitMin", q.integralLimit.min);
        put("OutLimitMax", q.outLim.max);
        put("OutLimitMin", q.outLim.min);
        put("SlewNeg", q.slewNeg);
        put("SlewPos", q.slewPos);
        opt("NegativeHysteresis", q.negativeHysteresis);
        opt("PositiveHysteresis", q.positiveHysteresis);
        opt("DCoefficient", q.derivativeCoeff);
        if (r.chance(0.4)) p["CheckHysteresisWithSetpoint"] = toVal(q.checkHysterWithSetpt = r.chance(0.5));
    }
    else
    {
        std::string sub = r.of<std::string>({"Ceiling", "Floor", "Ceiling", "Stepwise"});
        p["Class"] = toVal(sub);
        auto& q = e.info.stepwiseInfo;
        q.ts = 1;
        q.isCeiling = sub == "Ceiling";
        opt("PositiveHysteresis", q.positiveHysteresis);
        opt("NegativeHysteresis", q.negativeHysteresis);
        int k = int(r.chance(0.2) ? 20 : r.range(1, 20));
        for (int i = 0; i < k; i++)
        {
            e.reading.push_back(r.coarse(0, 100, 0.5));
            e.output.push_back(anyNum(r));
        }
        std::sort(e.reading.begin(), e.reading.end());
        p["Reading"] = toVal(e.reading);
        p["Output"] = toVal(e.output);
    }
    if (!selected) return true;
    for (auto& z : zs) b.mentioned.insert(z);
    if (refused) return false;
    if (e.groups.empty()) return true; // nothing of it is on the bus
    for (auto& [n, s] : recs) b.sensors[n].push_back(s);
    for (auto& z : zs)
    {
        if (offset.empty()) b.ctl[z][under(name)] = e;
        else
            for (auto& g : e.groups)
                for (size_t k = 0; k < g.in.size(); k++)
                {
                    Expect one = e;
                    Expect::Group og;
                    og.in = {g.in[k]};
                    og.margins = g.margins; // any of the group's
                    one.groups = {og};
                    auto& o = sim.services;
                    for (auto& [svcN, objs] : o)
                        for (auto& [pp, ifs] : objs)
                            if (tail(pp) == g.in[k].name && ifs.count(VALUE))
                            {
                                auto& th = ifs.at(offset.starts_with("C") ? CRIT : WARN);
                                if (th.count(offset)) one.info.setpoint += th.at(offset).d;
                            }
                    b.ctl[z][g.in[k].name] = one;
                }
    }
    return true;
}

// the ways the zone names may have been numbered
std::set<std::map<std::string, int64_t>> numberings(const BusCfg& b)
{
    std::set<std::map<std::string, int64_t>> res;
    std::vector<size_t> ex;
    std::vector<std::string> rest;
    for (size_t i = 0; i < b.zones.size(); i++)
        if (b.zones[i].explicitIndex) ex.push_back(i);
        else rest.push_back(b.zones[i].name);
    for (auto& m : b.mentioned)
        if (std::none_of(b.zones.begin(), b.zones.end(), [&](auto& z) { return z.name == m; })) rest.push_back(m);
    std::sort(ex.begin(), ex.end());
    do
    {
        std::map<std::string, int64_t> m;
        std::set<int64_t> used;
        for (auto i : ex)
        {
            auto v = b.zones[i].index;
            while (used.count(v)) v++;
            used.insert(v);
            m[b.zones[i].name] = v;
        }
        std::sort(rest.begin(), rest.end());
        do
        {
            auto m2 = m;
            auto u2 = used;
            for (auto& n : rest)
            {
                int64_t v = 0;
                while (u2.count(v)) v++;
                u2.insert(v);
                m2[n] = v;
            }
            res.insert(m2);
        } while (std::next_permutation(rest.begin(), rest.end()));
    } while (std::next_permutation(ex.begin(), ex.end()));
    return res;
}

std::string diffGroups(const std::vector<conf::SensorInput>& got, const Expect& e)
{
    size_t want = 0;
    for (auto& g : e.groups) want += g.in.size();
    if (got.size() != want) return "it has " + std::to_string(got.size()) + " inputs, expected " + std::to_string(want);
    for (auto& g : e.groups)
    {
        std::multiset<double> wm, gm;
        size_t wn = 0, gn = 0;
        for (auto m : g.margins) std::isnan(m) ? void(wn++) : void(wm.insert(m));
        for (auto& i : g.in)
        {
            auto it = std::find_if(got.begin(), got.end(), [&](auto& x) { return x.name == i.name; });
            if (it == got.end()) return "input " + i.name + " is missing";
            if (it->missingIsAcceptable != i.missingIsAcceptable)
                return "input " + i.name + " has missingIsAcceptable " + std::to_string(it->missingIsAcceptable);
            if (it->convertTempToMargin) gm.insert(it->convertMarginZero);
            else gn++;
        }
        bool ok = g.in.size() == g.margins.size() ? wm == gm && wn == gn
                                                  : (gn ? wn > 0 : wm.count(*gm.begin()) > 0);
        if (!ok)
        {
            std::string s = "input " + g.in[0].name + " converts with";
            for (auto m : gm) s += " " + num(m);
            s += ", expected";
            for (auto m : wm) s += " " + num(m);
            return s;
        }
    }
    return "";
}

struct Got
{
    bool ready = false;
    std::map<std::string, conf::SensorConfig> sensors;
    std::map<int64_t, conf::PIDConf> pids;
    std::map<int64_t, conf::ZoneConfig> zones;
};

BusCfg genBusCfg(Case& c, const World& w, bool& ok, int zonesMin = 0)
{
    auto& r = c.rng;
    auto& sim = Sim::get();
    BusCfg b;
    b.cfgSvc.insert("xyz.openbmc_project.EntityManager");
    std::string root = r.of<std::string>({"/", "/xyz/openbmc_project/inventory"});
    sim.services["xyz.openbmc_project.EntityManager"][root][OMIF];
    if (r.chance(0.3))
    {
        b.cfgSvc.insert("svc.Other");
        sim.services["svc.Other"]["/xyz/openbmc_project/inventory"][OMIF];
    }
    sim.services["svc.Sensors0"]["/xyz/openbmc_project/sensors"][OMIF];
    if (r.chance(0.6))
    {
        b.filtering = true;
        for (int k = int(r.range(1, 2)); k > 0; k--)
        {
            std::string m = r.of<std::string>({"Acoustic", "Performance", "Other"});
            b.profiles.insert(m);
            sim.services["svc.Mode" + std::to_string(k)]["/xyz/openbmc_project/control/thermal_mode"][MODEIF]["Current"] = toVal(m);
        }
    }
    std::vector<std::string> names{"Left", "Right", "Main Zone", "Z"};
    r.shuffle(names);
    int nz = int(r.chance(0.05) ? zonesMin : r.range(1, 3));
    for (int i = 0; i < nz; i++)
    {
        ZoneObj z;
        z.name = names[size_t(i)];
        std::string svc = *std::next(b.cfgSvc.begin(), r.range(0, int64_t(b.cfgSvc.size()) - 1));
        std::string path = "/xyz/openbmc_project/inventory/system/board/B/Zone" + std::to_string(i);
        b.zoneObjs.push_back({svc, path});
        auto& p = sim.services[svc][path][ZONEIF];
        p["Name"] = toVal(z.name);
        z.cfg.minThermalOutput = 1000.0 * (i + 1) + r.coarse(0, 500, 0.5);
        p["MinThermalOutput"] = numVal(r, z.cfg.minThermalOutput);
        if (r.chance(0.7))
        {
            z.cfg.failsafePercent = r.chance(0.05) ? r.of({101.0, 255.0, 300.0, 100000.0}) : r.coarse(0, 100, 0.25);
            p["FailSafePercent"] = numVal(r, z.cfg.failsafePercent);
        }
        z.cfg.cycleTime = {};
        auto cyc = [&](const char* n, uint64_t& v) {
            if (!r.chance(0.5)) return;
            double x = r.of({0.0, -5.0, 1.0, 0.5, 50.0, 100.0, 250.75, 1000.0, 60000.0});
            p[n] = numVal(r, x);
            if (x >= 1) v = uint64_t(x);
        };
        cyc("CycleIntervalTimeMS", z.cfg.cycleTime.cycleIntervalTimeMS);
        cyc("UpdateThermalsTimeMS", z.cfg.cycleTime.updateThermalsTimeMS);
        if (r.chance(0.4)) p["AccumulateSetPoint"] = toVal(z.cfg.accumulateSetPoint = r.chance(0.5));
        if (r.chance(0.45))
        {
            z.explicitIndex = true;
            z.index = r.chance(0.8) ? r.range(0, 3) : r.of<int64_t>({127, 128, 255, 256, 257, 300, 65536, 70000});
            p["ZoneIndex"] = toVal(double(z.index));
        }
        b.zones.push_back(z);
    }
    std::set<std::string> offsetUsed, fanUsed;
    ok = true;
    for (int k = int(r.range(zonesMin ? 1 : 0, 6)); k > 0; k--) ok = genCtl(c, b, w, k, offsetUsed, fanUsed) && ok;
    return b;
}

void describe(Case& c)
{
    for (auto& [s, objs] : Sim::get().services)
        for (auto& [p, ifs] : objs)
            for (auto& [i, props] : ifs)
            {
                c.log << s << " " << p << " " << i;
                for (auto& [n, v] : props) c.log << " " << n << "=" << v.str();
                c.log << "\n";
            }
}

// throws what init throws
Got load(boost::asio::io_context& io)
{
    static boost::asio::steady_timer timer(io);
    auto bus = sdbusplus::bus::new_default();
    Got g;
    // a previous configuration's records are in the way
    g.sensors["old"].type = "temp";
    g.pids[77]["old"].type = "fan";
    g.zones[77].failsafePercent = 3;
    g.ready = dbus_configuration::init(bus, timer, g.sensors, g.pids, g.zones);
    return g;
}
boost::asio::io_context& ioc()
{
    static boost::asio::io_context io;
    return io;
}

void compareBus(Case& c, const BusCfg& b, Got& g)
{
    bool wanted = false;
    for (auto& z : b.zones) wanted = wanted || !b.ctl.empty() && b.ctl.count(z.name);
    if (wanted) VP_CHECK(c, g.ready, "dbus-notready", "the configuration is complete but is not taken up");
    if (b.zones.empty() || b.mentioned.empty())
        VP_CHECK(c, !g.ready, "dbus-ready", "there is no zone or no controller but the configuration is taken up");
    // sensors
    for (auto& [n, s] : g.sensors)
    {
        auto it = b.sensors.find(n);
        VP_CHECK(c, it != b.sensors.end(), "dbus-sensor-extra", "sensor '" << n << "' (" << show(s) << ") was not asked for");
        bool any = false;
        for (auto& e : it->second) any = any || same(e, s);
        VP_CHECK(c, any, "dbus-sensor-field", "sensor '" << n << "' became " << show(s) << ", expected " << show(it->second[0]));
        c.count("sensor records compared");
    }
    for (auto& [n, s] : b.sensors)
        VP_CHECK(c, g.sensors.count(n), "dbus-sensor-lost", "sensor '" << n << "' is not in the configuration");
    // zones
    VP_CHECK(c, g.zones.size() == b.zones.size(), "dbus-zones",
             g.zones.size() << " zones from " << b.zones.size() << " zone objects");
    std::string why, key;
    for (auto& m : numberings(b))
    {
        std::string bad, k;
        auto set = [&](const std::string& kk, const std::string& w) {
            if (bad.empty()) bad = w, k = kk;
        };
        std::set<int64_t> known;
        for (auto& [n, i] : m) known.insert(i);
        for (auto& z : b.zones)
        {
            auto it = g.zones.find(m.at(z.name));
            if (it == g.zones.end() || it->second.minThermalOutput != z.cfg.minThermalOutput)
            {
                set("dbus-zone-index", "zone '" + z.name + "' is not at index " + std::to_string(m.at(z.name)));
                break;
            }
            auto& x = it->second;
            if (x.failsafePercent != z.cfg.failsafePercent || x.accumulateSetPoint != z.cfg.accumulateSetPoint ||
                x.cycleTime.cycleIntervalTimeMS != z.cfg.cycleTime.cycleIntervalTimeMS ||
                x.cycleTime.updateThermalsTimeMS != z.cfg.cycleTime.updateThermalsTimeMS)
            {
                std::ostringstream o;
                o << "zone '" << z.name << "' has failsafe " << x.failsafePercent << " accumulate " << x.accumulateSetPoint
                  << " cycle " << x.cycleTime.cycleIntervalTimeMS << "/" << x.cycleTime.updateThermalsTimeMS
                  << ", expected " << z.cfg.failsafePercent << " " << z.cfg.accumulateSetPoint << " "
                  << z.cfg.cycleTime.cycleIntervalTimeMS << "/" << z.cfg.cycleTime.updateThermalsTimeMS;
                set("dbus-zone-field", o.str());
            }
        }
        if (bad.empty())
            for (auto& [i, conf] : g.pids)
            {
                if (!known.count(i)) set("dbus-zone-index", "controllers are put into zone " + std::to_string(i));
            }
        if (bad.empty())
            for (auto& [n, i] : m)
            {
                auto ci = b.ctl.find(n);
                static const std::map<std::string, Expect> none;
                auto& want = ci == b.ctl.end() ? none : ci->second;
                auto gi = g.pids.find(i);
                size_t have = gi == g.pids.end() ? 0 : gi->second.size();
                for (auto& [cn, e] : want)
                {
                    if (gi == g.pids.end() || !gi->second.count(cn))
                    {
                        set("dbus-controller-lost", "controller '" + cn + "' is not in zone '" + n + "'");
                        continue;
                    }
                    auto& got = gi->second.at(cn);
                    auto d = diffInfo(got, e.info, false, false);
                    if (d.empty()) d = diffGroups(got.inputs, e);
                    if (d.empty() && e.info.type == "stepwise")
                        for (size_t k2 = 0; k2 < ec::maxStepwisePoints && k2 <= e.reading.size(); k2++)
                        {
                            bool end = k2 == e.reading.size();
                            if (!same(got.stepwiseInfo.reading[k2], end ? vp::NaN : e.reading[k2]) ||
                                !same(got.stepwiseInfo.output[k2], end ? vp::NaN : e.output[k2]))
                                d = "point " + std::to_string(k2) + " is " + num(got.stepwiseInfo.reading[k2]) + " -> " +
                                    num(got.stepwiseInfo.output[k2]);
                        }
                    if (!d.empty()) set("dbus-controller-field", "controller '" + cn + "' of zone '" + n + "': " + d);
                }
                if (have != want.size())
                {
                    std::string l;
                    if (gi != g.pids.end())
                        for (auto& [cn, x] : gi->second) l += " '" + cn + "'";
                    set("dbus-controllers", "zone '" + n + "' has " + std::to_string(have) + " controllers (" + l +
                                               " ), expected " + std::to_string(want.size()));
                }
            }
        if (bad.empty())
        {
            for (auto& [z, cs] : b.ctl) c.count("controller records compared", cs.size());
            c.count("zone records compared", b.zones.size());
            return;
        }
        if (why.empty() || key == "dbus-zone-index") why = bad, key = k;
    }
    c.fail(key, why);
}

void dbusConfig(Case& c)
{
    auto& r = c.rng;
    Sim::get().reset();
    vp::Silence sil;
    auto w = genWorld(c);
    bool ok = true;
    BusCfg b = genBusCfg(c, w, ok);
    describe(c);
    for (int round = 0; round < 2; round++)
    {
        if (r.chance(0.3)) // a bus that does not answer at first
        {
            int n = int(r.range(1, 6));
            Sim::get().fault = [&](const simbus::Msg&) { return --n == 0 ? std::string("org.freedesktop.DBus.Error.NoReply") : ""; };
            try
            {
                load(ioc());
            }
            catch (const std::exception&)
            {
                c.count("attempts refused because of a failing call");
            }
            Sim::get().fault = nullptr;
        }
        Got g;
        bool threw = false;
        std::string what;
        try
        {
            g = load(ioc());
        }
        catch (const std::exception& e)
        {
            threw = true;
            what = e.what();
        }
        if (!ok)
        {
            VP_CHECK(c, threw, "dbus-pairing", "fans and PWMs that do not match are accepted");
            c.count("mismatched fans refused");
            return;
        }
        VP_CHECK(c, !threw, "dbus-refused", "a valid configuration is refused: " << what);
        compareBus(c, b, g);
    }
    size_t n = 0;
    for (auto& [z, cs] : b.ctl)
    {
        n += cs.size();
        for (auto& [cn, e] : cs)
        {
            c.sig(e.info.type);
            c.sig(uint64_t(e.groups.size()));
        }
    }
    c.sig(uint64_t(b.zones.size()));
    if (n > 1) c.nontrivial();
}

void dbusRefused(Case& c)
{
    auto& r = c.rng;
    auto& sim = Sim::get();
    vp::Silence sil;
    // a small complete configuration, then one thing wrong with it
    sim.reset();
    World w;
    for (auto n : {"T1", "T2"})
    {
        std::string p = std::string("/xyz/openbmc_project/sensors/temperature/") + n;
        sim.services["svc.S"][p][VALUE]["Value"] = toVal(20.0);
        w.temp[n] = p;
    }
    for (auto n : {"Fan_1", "Fan_2", "Fan_3"})
        sim.services["svc.S"][std::string("/xyz/openbmc_project/sensors/fan_tach/") + n][VALUE]["Value"] = toVal(2000.0);
    for (auto n : {"Pwm_1", "Pwm_2"})
        sim.services["svc.S"][std::string("/xyz/openbmc_project/control/fanpwm/") + n][FANPWM]["Target"] = toVal(uint64_t(9));
    auto& em = sim.services["svc.EM"];
    em["/"][OMIF];
    auto& zone = em["/c/Z"][ZONEIF];
    zone["Name"] = toVal(std::string("Z"));
    zone["MinThermalOutput"] = toVal(1000.0);
    auto base = [&](auto& p, const std::string& name) {
        p["Name"] = toVal(name);
        p["Zones"] = toVal(std::vector<std::string>{"Z"});
        p["Inputs"] = toVal(std::vector<std::string>{"T1", "T2"});
    };
    const std::vector<std::string> nums{"PCoefficient", "ICoefficient", "FFOffCoefficient", "FFGainCoefficient",
                                        "ILimitMax", "ILimitMin", "OutLimitMax", "OutLimitMin", "SlewNeg", "SlewPos"};
    auto pidp = [&](auto& p, const std::string& cls) {
        p["Class"] = toVal(cls);
        for (auto& n : nums) p[n] = toVal(1.0);
        if (cls != "fan") p["SetPoint"] = toVal(50.0);
    };
    auto& fan = em["/c/F"][PIDIF];
    base(fan, "F");
    pidp(fan, "fan");
    fan["Inputs"] = toVal(std::vector<std::string>{"Fan_1", "Fan_2"});
    fan["Outputs"] = toVal(std::vector<std::string>{"Pwm_1", "Pwm_2"});
    auto& temp = em["/c/T"][PIDIF];
    base(temp, "T");
    std::string cls = r.of<std::string>({"temp", "margin", "power", "powersum"});
    pidp(temp, cls);
    auto& step = em["/c/S"][STEPIF];
    base(step, "S");
    step["Class"] = toVal(std::string("Ceiling"));
    step["Reading"] = toVal(std::vector<double>{1, 2, 3});
    step["Output"] = toVal(std::vector<double>{10, 20, 30});
    try
    {
        auto g = load(ioc());
        VP_CHECK(c, g.ready && g.pids.size() == 1 && g.pids.begin()->second.size() == 3, "dbus-small",
                 "the small configuration is not loaded");
    }
    catch (const std::exception& e)
    {
        c.fail("dbus-small", std::string("the small configuration is refused: ") + e.what());
    }
    std::string what;
    auto text = toVal(std::string("x"));
    auto drop = [&](auto& p, const std::string& on, std::vector<std::string> keys) {
        auto k = r.pick(keys);
        p.erase(k);
        what = on + " without " + k;
    };
    auto names = [](std::vector<std::string> v) { return toVal(v); };
    std::vector<double> many(21, 1.0);
    switch (r.range(0, 13))
    {
        case 0: drop(zone, "zone", {"Name", "MinThermalOutput"}); break;
        case 1: drop(temp, cls, {"Name", "Class", "Zones", "Inputs", "SetPoint"}); break;
        case 2: drop(temp, cls, nums); break;
        case 3:
        {
            auto keys = nums;
            keys.insert(keys.end(), {"Name", "Class", "Zones", "Inputs", "Outputs"});
            drop(fan, "fan", keys);
            break;
        }
        case 4: drop(step, "stepwise", {"Name", "Class", "Zones", "Inputs", "Reading", "Output"}); break;
        case 5:
            fan["Outputs"] = r.chance(0.5) ? names({"Pwm_1", "Pwm_9"}) : r.chance(0.5) ? names({}) : names({"Pwm_9"});
            what = "PWMs that are not there";
            break;
        case 6:
            fan["Inputs"] = names({"Fan_1", "Fan_2", "Fan_3"});
            what = "three fans with two PWMs";
            break;
        case 7:
            if (r.chance(0.5)) fan["Outputs"] = names({"T1"});
            else fan["Outputs"] = names({"Pwm_1", "Fan_2"});
            what = "an output that is no PWM";
            break;
        case 8:
            (r.chance(0.5) ? temp : fan)["Inputs"] = names({"T1", "Pwm_1"});
            what = "an input that is no sensor";
            break;
        case 9:
            temp["SetPointOffset"] = toVal(r.of<std::string>({"CriticalHi", "criticalhigh", "HardShutdownHigh"}));
            what = "an unknown SetPointOffset";
            break;
        case 10:
            if (r.chance(0.3)) step["Reading"] = toVal(std::vector<double>{1, 2}), what = "fewer readings than outputs";
            else if (r.chance(0.3)) step["Output"] = toVal(std::vector<double>{1, 2, 3, 4}), what = "more outputs than readings";
            else if (r.chance(0.5))
                step["Reading"] = step["Output"] = toVal(many), what = "21 points";
            else step["Reading"] = step["Output"] = toVal(std::vector<double>{}), what = "no points";
            break;
        case 11:
        {
            auto k = r.of<std::string>({"MinThermalOutput", "FailSafePercent", "CycleIntervalTimeMS", "AccumulateSetPoint", "Name"});
            zone[k] = k == "Name" ? toVal(1.0) : text;
            what = "zone " + k + " of the wrong kind";
            break;
        }
        case 12:
        {
            auto keys = nums;
            keys.insert(keys.end(), {"FailSafePercent", "DCoefficient", "PositiveHysteresis", "NegativeHysteresis",
                                     "CheckHysteresisWithSetpoint", "InputUnavailableAsFailed", "IgnoreFailIfHostOff",
                                     "Inputs", "Zones", "MissingIsAcceptable", "TempToMargin"});
            auto k = r.pick(keys);
            temp[k] = text;
            what = cls + " " + k + " of the wrong kind";
            break;
        }
        default:
        {
            auto k = r.of<std::string>({"Reading", "Output", "PositiveHysteresis", "NegativeHysteresis", "Inputs", "Zones",
                                        "MissingIsAcceptable", "InputUnavailableAsFailed"});
            step[k] = text;
            what = "stepwise " + k + " of the wrong kind";
        }
    }
    c.log << what << "\n";
    bool threw = false;
    try
    {
        load(ioc());
    }
    catch (const std::exception&)
    {
        threw = true;
    }
    VP_CHECK(c, threw, "dbus-accepted", "a configuration is accepted that has: " << what);
    c.count("broken configurations refused");
    c.sig(what);
    c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
    return vp::run(argc, argv,
                   {{"json_valid", jsonValid, 1500, 40000, 20},
                    {"json_broken", jsonBroken, 2500, 60000, 20},
                    {"json_text", jsonText, 2000, 60000, 20},
                    {"dbus_config", dbusConfig, 2500, 60000, 20},
                    {"dbus_refused", dbusRefused, 800, 20000, 20}});
}
