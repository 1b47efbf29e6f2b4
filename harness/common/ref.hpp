// Independent reference models and a recording zone, shared by the harnesses.
#pragma once
#include "conf.hpp"
#include "pid/zone_interface.hpp"
#include "sensors/sensor.hpp"
#include "vp.hpp"

#include <algorithm>
#include <chrono>
#include <map>
#include <memory>
#include <optional>

namespace ref
{
using pid_control::ValueCacheEntry;

// The control law as documented (tuning.md / pid README), written from the
// statement of the property: terms, clamp, slew, back-calculation.
struct Pid
{
    pid_control::ec::pidinfo c;
    bool started = false;
    double integral = 0, lastErr = 0, lastOut = 0;
    double scale = 1; // largest magnitude met, for the comparison tolerance
    // what happened in the last step
    bool satLow = false, satHigh = false, slewed = false, iLimited = false;
    // the terms of the last step, as the core log names them
    struct Terms
    {
        double input, setpoint, error, proportionalTerm, integralTerm1, integralTerm2, derivativeTerm, feedFwdTerm,
            output1, output2, minOut, maxOut, integralTerm3, output3, integralTerm, output;
    } t{};

    void mag(double x) { if (std::isfinite(x)) scale = std::max(scale, std::fabs(x)); }
    double step(double in, double sp)
    {
        const double err = sp - in;
        const double p = c.proportionalCoeff * err;
        double i = 0;
        iLimited = false;
        if (c.integralCoeff != 0)
        {
            const double raw = integral + err * c.integralCoeff * c.ts;
            i = std::min(std::max(raw, c.integralLimit.min), c.integralLimit.max);
            iLimited = i != raw;
            mag(raw);
        }
        const double d = c.derivativeCoeff * (err - lastErr) / c.ts;
        const double ff = c.feedFwdGain * (sp + c.feedFwdOffset);
        double out = p + i + d + ff;
        t = {in, sp, err, p, c.integralCoeff != 0 ? integral + err * c.integralCoeff * c.ts : 0, i, d, ff, out,
             std::min(std::max(out, c.outLim.min), c.outLim.max)};
        for (double x : {p, i, d, ff, out, in, sp}) mag(x);
        satLow = out < c.outLim.min;
        satHigh = out > c.outLim.max;
        if (satLow) out = c.outLim.min;
        else if (satHigh) out = c.outLim.max;
        slewed = false;
        if (started)
        {
            if (c.slewNeg != 0 && out < lastOut + c.slewNeg * c.ts)
            {
                out = lastOut + c.slewNeg * c.ts;
                slewed = true;
            }
            if (c.slewPos != 0 && out > lastOut + c.slewPos * c.ts)
            {
                out = lastOut + c.slewPos * c.ts;
                slewed = true;
            }
            if (c.slewNeg != 0 || c.slewPos != 0) i = out - p;
            if (c.slewNeg != 0) t.minOut = lastOut + c.slewNeg * c.ts;
            if (c.slewPos != 0) t.maxOut = lastOut + c.slewPos * c.ts;
        }
        t.integralTerm3 = i;
        t.output3 = t.output = out;
        t.integralTerm = std::min(std::max(i, c.integralLimit.min), c.integralLimit.max);
        integral = std::min(std::max(i, c.integralLimit.min), c.integralLimit.max);
        started = true;
        lastErr = err;
        lastOut = out;
        return out;
    }
    double tol() const { return 1e-10 * scale + 1e-12; }
    bool same(double got, double want) const
    {
        if (std::isnan(got) || std::isnan(want)) return std::isnan(got) && std::isnan(want);
        return got == want || std::fabs(got - want) <= tol();
    }
};

// hysteresis wrapped around the law
struct HystPid
{
    Pid pid;
    double latched = vp::NaN;
    double lastOut = 0;
    enum { RUN, HOLD, OFF, LATCHED } what = RUN;
    double step(double in, double sp)
    {
        auto& c = pid.c;
        double out;
        if (c.checkHysterWithSetpt)
        {
            if (in > sp + c.positiveHysteresis) { out = pid.step(in, sp); what = RUN; }
            else if (in < sp - c.negativeHysteresis)
            {
                out = 0;
                pid.integral = 0;
                what = OFF;
            }
            else { out = lastOut; what = HOLD; }
        }
        else if (c.positiveHysteresis == 0 && c.negativeHysteresis == 0)
        {
            out = pid.step(in, sp);
            what = RUN;
        }
        else
        {
            what = LATCHED;
            if (!std::isfinite(latched) || in - latched > c.positiveHysteresis ||
                latched - in > c.negativeHysteresis)
            {
                what = RUN;
                latched = in;
            }
            out = pid.step(latched, sp);
        }
        pid.lastOut = lastOut = out;
        return out;
    }
};

struct RecSensor : pid_control::Sensor
{
    struct W
    {
        double value;
        bool force;
    };
    std::vector<W> writes;
    pid_control::ReadReturn r;
    bool failed = false;
    std::string reason = "stub";
    std::function<void(RecSensor&, double, bool)> onWrite;
    int64_t raw = 7;
    bool reportsRaw = true; // a writer may leave the raw value alone
    RecSensor(const std::string& n, int64_t t = 0) : Sensor(n, t) {}
    pid_control::ReadReturn read() override { return r; }
    void write(double v) override { write(v, false, nullptr); }
    void write(double v, bool force, int64_t* w) override
    {
        writes.push_back({v, force});
        if (w && reportsRaw) *w = raw;
        if (onWrite) onWrite(*this, v, force);
    }
    bool getFailed() override { return failed; }
    std::string getFailReason() override { return reason; }
};

struct FakeZone : pid_control::ZoneInterface
{
    int64_t id = 1;
    std::map<std::string, ValueCacheEntry> cache;
    std::map<std::string, std::unique_ptr<RecSensor>> sensors;
    std::map<std::string, ValueCacheEntry> outCache;
    uint64_t negative = 0;
    struct SP
    {
        double v;
        std::string name;
    };
    std::vector<SP> setpoints;
    std::vector<double> ceilings;
    struct Dbg
    {
        std::string pid, leader;
        double in, out;
    };
    std::vector<Dbg> dbg;
    double maxSp = 0, fsPercent = 100;
    bool fs = false, man = false, redundant = false, acc = false;
    uint64_t ci = 100, th = 1000;
    pid_control::Sensor* getSensor(const std::string& n) override
    {
        auto& s = sensors[n];
        if (!s) s = std::make_unique<RecSensor>(n);
        return s.get();
    }
    RecSensor& rec(const std::string& n) { return *static_cast<RecSensor*>(getSensor(n)); }
    int64_t getZoneID() const override { return id; }
    void initializeLog() override {}
    void writeLog(const std::string&) override {}
    std::vector<std::string> getSensorNames() override
    {
        std::vector<std::string> v;
        for (auto& [n, x] : cache) v.push_back(n);
        return v;
    }
    void updateFanTelemetry() override {}
    void updateSensors() override {}
    void initializeCache() override {}
    void setOutputCache(std::string_view n, const ValueCacheEntry& e) override
    {
        // (memcheck reports a decision on a value nobody has set)
        if (e.scaled < 0 || e.unscaled < 0) negative++;
        outCache[std::string(n)] = e;
    }
    double getCachedValue(const std::string& n) override { return cache.at(n).scaled; }
    ValueCacheEntry getCachedValues(const std::string& n) override { return cache.at(n); }
    void addSetPoint(double v, const std::string& n) override { setpoints.push_back({v, n}); }
    void clearSetPoints() override { setpoints.clear(); }
    void addRPMCeiling(double v) override { ceilings.push_back(v); }
    void clearRPMCeilings() override { ceilings.clear(); }
    void determineMaxSetPointRequest() override {}
    double getMaxSetPointRequest() const override { return maxSp; }
    bool getFailSafeMode() const override { return fs; }
    double getFailSafePercent() override { return fsPercent; }
    std::map<std::string, std::pair<std::string, double>> getFailSafeSensors() const override
    {
        return {};
    }
    uint64_t getCycleIntervalTime() const override { return ci; }
    uint64_t getUpdateThermalsCycle() const override { return th; }
    bool getManualMode() const override { return man; }
    bool getRedundantWrite() const override { return redundant; }
    bool getAccSetPoint() const override { return acc; }
    void processFans() override {}
    void processThermals() override {}
    void updateThermalPowerDebugInterface(std::string p, std::string l, double i,
                                          double o) override
    {
        dbg.push_back({p, l, i, o});
    }
};

// ---- generators
inline pid_control::ec::pidinfo genPid(vp::Rng& r, bool hyst = false)
{
    pid_control::ec::pidinfo c;
    c.ts = r.of({1.0, 1.0, 0.1, 0.1, 0.5, 2.0, 10.0, 0.01});
    auto coef = [&](double m) {
        switch (r.range(0, 5))
        {
            case 0: return 0.0;
            case 1: return r.coarse(-m, m, m / 8);
            case 2: return r.real(-m, m);
            case 3: return r.real(-0.01, 0.01) * m;
            default: return r.coarse(0, m, m / 8);
        }
    };
    c.proportionalCoeff = coef(4);
    c.integralCoeff = r.chance(0.3) ? 0.0 : coef(2);
    c.derivativeCoeff = r.chance(0.4) ? 0.0 : coef(2);
    c.feedFwdGain = r.chance(0.4) ? 0.0 : coef(2);
    c.feedFwdOffset = r.chance(0.4) ? 0.0 : coef(100);
    auto lim = [&](pid_control::ec::limits_t& l) {
        switch (r.range(0, 5))
        {
            case 0: l = {0, 0}; break;
            case 1: { double x = r.coarse(-50, 50, 5); l = {x, x}; break; }
            case 2: l = {-1e6, 1e6}; break;
            case 3: l = {0, 100}; break;
            case 4: { double a = r.coarse(-200, 200, 1), b = r.coarse(0, 300, 1); l = {a, a + b}; break; }
            default: { double a = r.real(-500, 500); l = {a, a + r.real(0, 1000)}; break; }
        }
    };
    lim(c.integralLimit);
    lim(c.outLim);
    if (r.chance(0.75) && c.outLim.max - c.outLim.min < 1) c.outLim = {-1e5, 1e5};
    switch (r.range(0, 6))
    {
        case 0: c.slewNeg = -r.coarse(0.5, 50, 0.5); break;
        case 1: c.slewPos = r.coarse(0.5, 50, 0.5); break;
        case 2: c.slewNeg = -r.real(0, 20); c.slewPos = r.real(0, 20); break;
        case 3: c.slewNeg = -r.coarse(0.5, 5, 0.5); c.slewPos = r.coarse(5, 500, 5); break;
        default: break;
    }
    if (hyst)
    {
        c.checkHysterWithSetpt = r.chance(0.45);
        c.positiveHysteresis = r.of({0.0, 0.5, 1.0, 2.0, 5.0, r.real(0, 8)});
        c.negativeHysteresis = r.of({0.0, 0.5, 1.0, 2.0, 5.0, r.real(0, 8)});
    }
    return c;
}
inline std::string show(const pid_control::ec::pidinfo& c)
{
    return VP_STR("ts=" << c.ts << " P=" << c.proportionalCoeff << " I=" << c.integralCoeff
                        << " D=" << c.derivativeCoeff << " ffOff=" << c.feedFwdOffset
                        << " ffGain=" << c.feedFwdGain << " iLim=[" << c.integralLimit.min << ","
                        << c.integralLimit.max << "] out=[" << c.outLim.min << "," << c.outLim.max
                        << "] slew=[" << c.slewNeg << "," << c.slewPos << "] hyst=[+"
                        << c.positiveHysteresis << ",-" << c.negativeHysteresis << "] setptHyst="
                        << c.checkHysterWithSetpt);
}
inline void sig(vp::Case& c, const pid_control::ec::pidinfo& p)
{
    for (double d : {p.ts, p.proportionalCoeff, p.integralCoeff, p.derivativeCoeff,
                     p.feedFwdOffset, p.feedFwdGain, p.integralLimit.min, p.integralLimit.max,
                     p.outLim.min, p.outLim.max, p.slewNeg, p.slewPos, p.positiveHysteresis,
                     p.negativeHysteresis, double(p.checkHysterWithSetpt)})
        c.sig(d);
}
// a signal source: walks, holds, steps, spikes
struct Wave
{
    vp::Rng& r;
    double lo, hi, x, step;
    int mode = 0, left = 0;
    Wave(vp::Rng& rng, double l, double h) : r(rng), lo(l), hi(h), x(rng.coarse(l, h, 0.5)), step(0.5) {}
    double next()
    {
        if (left-- <= 0)
        {
            mode = int(r.range(0, 7));
            left = int(r.range(1, 12));
            step = r.of({0.25, 0.5, 1.0, 2.0, 5.0, r.real(0, 10)});
        }
        switch (mode)
        {
            case 0: break; // hold
            case 1: x += step; break;
            case 2: x -= step; break;
            case 3: x += step * double(r.range(-2, 2)); break;
            case 4: x = r.coarse(lo, hi, 0.5); break;
            case 5: x = r.real(lo, hi); break;
            case 6: return r.of({lo - 1e4, hi + 1e4, 0.0, -0.0, 1e7, -1e7});
            default: x += (r.chance(0.5) ? step : -step); break;
        }
        if (x < lo - 50 || x > hi + 50) x = r.coarse(lo, hi, 0.5);
        return x;
    }
};
} // namespace ref
