// Controllers driven through their factories with a recording zone, compared
// step by step with reference models (C01-C05, C13).
#include "errors/exception.hpp"
#include "pid/ec/pid.hpp"
#include "pid/ec/stepwise.hpp"
#include "pid/fancontroller.hpp"
#include "pid/pidcontroller.hpp"
#include "pid/stepwisecontroller.hpp"
#include "pid/thermalcontroller.hpp"
#include "pid/tuning.hpp"
#include "ref.hpp"
#include "util.hpp"

using namespace pid_control;
using vp::Case;
using vp::num;

namespace
{
int steps(Case& c) { return int(c.rng.of({8, 20, 60, 150, c.thorough ? 600 : 200})); }

// ---------------------------------------------------------------- C01
void lawCore(Case& c)
{
    auto cfg = ref::genPid(c.rng);
    ref::sig(c, cfg);
    c.log << ref::show(cfg) << "\n";
    ec::pid_info_t info;
    initializePIDStruct(&info, cfg);
    ref::Pid m{cfg};
    ref::Wave in(c.rng, -50, 120), sp(c.rng, 0, 100);
    double s = sp.next();
    int n = steps(c), sat = 0, slew = 0, ilim = 0, changed = 0;
    double prev = vp::NaN;
    for (int k = 0; k < n; k++)
    {
        if (c.rng.chance(0.15)) s = sp.next();
        double x = in.next();
        double got = ec::pid(&info, x, s);
        double want = m.step(x, s);
        c.log << "in=" << num(x) << " sp=" << num(s) << " out=" << num(got) << "\n";
        VP_CHECK(c, m.same(got, want), "law",
                 "step " << k << ": output " << num(got) << ", the law gives " << num(want));
        VP_CHECK(c, m.same(info.integral, m.integral), "law-integral",
                 "step " << k << ": integral " << num(info.integral) << ", the law gives "
                         << num(m.integral));
        c.sig(x);
        c.sig(s);
        sat += m.satLow || m.satHigh;
        slew += m.slewed;
        ilim += m.iLimited;
        changed += got != prev;
        prev = got;
    }
    c.count("pid steps", uint64_t(n));
    c.count("steps saturated", uint64_t(sat));
    c.count("steps slew limited", uint64_t(slew));
    c.count("steps integral limited", uint64_t(ilim));
    if (changed > 2) c.nontrivial();
}

// Readings near the largest a double can hold (what an uninitialised source
// reports): terms overflow, and the output still goes where the law sends it.
void lawOverflow(Case& c)
{
    using ld = long double;
    auto cfg = ref::genPid(c.rng);
    ref::sig(c, cfg);
    c.log << ref::show(cfg) << "\n";
    ref::FakeZone z;
    std::vector<conf::SensorInput> ins(1);
    ins[0].name = "t0";
    double sp = c.rng.coarse(0, 100, 0.5);
    bool ctl = c.rng.chance(0.5);
    auto p = ThermalController::createThermalPid(&z, "c", ins, sp, cfg, ThermalType::absolute);
    ec::pid_info_t* info = p->getPIDInfo();
    ld integral = 0, lastErr = 0, lastOut = 0;
    bool started = false;
    ref::Wave in(c.rng, -50, 150);
    int n = int(c.rng.range(6, 30)), huge = 0, compared = 0;
    auto lim = [](ld x, double lo, double hi) { return x < lo ? ld(lo) : x > hi ? ld(hi) : x; };
    for (int k = 0; k < n; k++)
    {
        double x = in.next();
        if (c.rng.chance(0.25))
        {
            x = c.rng.of({1.7e308, -1.7e308, 1e308, -1e308, 6e307, 1.2e305, -3e306});
            huge++;
        }
        double got;
        if (ctl)
        {
            z.setpoints.clear();
            z.cache["t0"] = {x, x};
            p->process();
            got = z.setpoints.at(0).v;
        }
        else got = ec::pid(info, x, sp);
        ld err = ld(sp) - x, P = cfg.proportionalCoeff * err, I = 0;
        if (cfg.integralCoeff != 0)
            I = lim(integral + err * cfg.integralCoeff * cfg.ts, cfg.integralLimit.min, cfg.integralLimit.max);
        ld D = cfg.derivativeCoeff * ((err - lastErr) / cfg.ts), FF = cfg.feedFwdGain * (ld(sp) + cfg.feedFwdOffset);
        bool up = P > 1e285L || D > 1e285L, down = P < -1e285L || D < -1e285L;
        c.log << "in=" << num(x) << " out=" << num(got) << " integral=" << num(info->integral) << "\n";
        if (up && down) break; // what is left of the difference is not defined
        ld want = lim(P + I + D + FF, cfg.outLim.min, cfg.outLim.max);
        // the comparison is meaningful where the sum is not cancelled away
        ld mag = 1 + std::fabs(double(want)) + std::fabs(double(lastOut));
        if (!up && !down) mag += fabsl(P) + fabsl(D) + fabsl(FF) + fabsl(I);
        if (started)
        {
            if (cfg.slewNeg != 0) want = std::max(want, lastOut + ld(cfg.slewNeg) * cfg.ts);
            if (cfg.slewPos != 0) want = std::min(want, lastOut + ld(cfg.slewPos) * cfg.ts);
            if (cfg.slewNeg != 0 || cfg.slewPos != 0) I = want - P;
        }
        VP_CHECK(c, fabsl(ld(got) - want) <= 1e-9L * mag, "law-overflow",
                 "step " << k << ": reading " << num(x) << " gives output " << num(got) << ", the law gives " << double(want));
        ld keep = lim(I, cfg.integralLimit.min, cfg.integralLimit.max);
        ld imag = 1 + fabsl(keep);
        if (!up && !down) imag += mag;
        VP_CHECK(c, fabsl(ld(info->integral) - keep) <= 1e-9L * imag, "law-overflow",
                 "step " << k << ": reading " << num(x) << " leaves integral " << num(info->integral) << ", the law gives "
                         << double(keep));
        // go on from what the controller holds: no error is carried along
        integral = info->integral;
        lastOut = got;
        lastErr = err;
        started = true;
        compared++;
        c.sig(x);
    }
    c.count("readings near the largest double", uint64_t(huge));
    c.count("steps around them compared", uint64_t(compared));
    if (huge && compared > 2) c.nontrivial();
}

void lawThermal(Case& c)
{
    auto cfg = ref::genPid(c.rng);
    ref::sig(c, cfg);
    double sp = c.rng.coarse(-20, 100, 0.5);
    c.log << ref::show(cfg) << " setpoint=" << sp << "\n";
    ref::FakeZone z;
    ThermalType ty = c.rng.of({ThermalType::margin, ThermalType::absolute, ThermalType::summation});
    std::vector<conf::SensorInput> ins(1);
    ins[0].name = "t0";
    auto p = ThermalController::createThermalPid(&z, "ctl0", ins, sp, cfg, ty);
    ref::Pid m{cfg};
    ref::Wave in(c.rng, -50, 120);
    int n = steps(c), changed = 0;
    double prev = vp::NaN;
    for (int k = 0; k < n; k++)
    {
        double x = in.next();
        if (c.rng.chance(0.1)) { sp = c.rng.coarse(-20, 100, 0.5); p->setSetpoint(sp); }
        z.cache["t0"] = {x, x};
        z.setpoints.clear();
        p->process();
        double want = m.step(x, sp);
        c.log << "in=" << num(x) << " sp=" << num(sp) << "\n";
        VP_CHECK(c, z.setpoints.size() == 1 && z.setpoints[0].name == "ctl0", "law-report",
                 "step " << k << ": the controller reported " << z.setpoints.size()
                         << " set-points to its zone");
        double got = z.setpoints[0].v;
        VP_CHECK(c, m.same(got, want), "law",
                 "step " << k << ": controller output " << num(got) << ", the law gives " << num(want));
        changed += got != prev;
        prev = got;
        c.sig(x);
        c.sig(sp);
    }
    c.count("controller steps", uint64_t(n));
    if (changed > 2) c.nontrivial();
}

void lawFan(Case& c)
{
    auto cfg = ref::genPid(c.rng);
    ref::sig(c, cfg);
    c.log << ref::show(cfg) << "\n";
    ref::FakeZone z;
    auto p = FanController::createFanPid(&z, "fanctl", {"f0"}, cfg);
    ref::Pid m{cfg};
    ref::Wave in(c.rng, 100, 12000), sp(c.rng, 0, 12000);
    vp::Silence quiet;
    int n = steps(c), changed = 0;
    double prev = vp::NaN;
    for (int k = 0; k < n; k++)
    {
        double x = std::fabs(in.next()) + 1;
        if (c.rng.chance(0.2)) z.maxSp = sp.next();
        z.cache["f0"] = {x / 20000, x};
        auto& s = z.rec("f0");
        s.writes.clear();
        p->process();
        double want = m.step(x, z.maxSp) / 100;
        c.log << "rpm=" << num(x) << " sp=" << num(z.maxSp) << "\n";
        VP_CHECK(c, s.writes.size() == 1, "law-report", "step " << k << ": the fan was written "
                                                               << s.writes.size() << " times");
        double got = s.writes[0].value;
        VP_CHECK(c, m.same(got * 100, want * 100), "law",
                 "step " << k << ": fan duty " << num(got) << ", the law gives " << num(want));
        changed += got != prev;
        prev = got;
        c.sig(x);
        c.sig(z.maxSp);
    }
    c.count("controller steps", uint64_t(n));
    if (changed > 2) c.nontrivial();
}

// ---------------------------------------------------------------- C02
void limitsCore(Case& c)
{
    auto cfg = ref::genPid(c.rng, c.rng.chance(0.3));
    bool ctl = c.rng.chance(0.5);
    if (!ctl) cfg.checkHysterWithSetpt = false;
    ref::sig(c, cfg);
    c.log << ref::show(cfg) << (ctl ? " via controller" : " core") << "\n";
    ref::FakeZone z;
    std::vector<conf::SensorInput> ins(1);
    ins[0].name = "t0";
    double s = c.rng.coarse(0, 100, 0.5);
    auto p = ThermalController::createThermalPid(&z, "c", ins, s, cfg, ThermalType::absolute);
    ec::pid_info_t* info = p->getPIDInfo();
    int n = steps(c), atLimit = 0, slewBound = 0, extremes = 0;
    double last = vp::NaN;
    ref::Wave in(c.rng, -50, 150);
    bool everReset = false, computedBefore = false;
    for (int k = 0; k < n; k++)
    {
        double x = in.next();
        if (c.rng.chance(0.05)) { x = c.rng.of({1e9, -1e9, 1e12, -1e12, 1e15, 1e100, -1e100, 1e300, -1e300}); extremes++; }
        if (c.rng.chance(0.1)) s = c.rng.chance(0.1) ? c.rng.of({1e9, -1e9, 1e200}) : c.rng.coarse(0, 100, 0.5);
        double out;
        bool ran = true;
        if (ctl)
        {
            z.setpoints.clear();
            z.cache["t0"] = {x, x};
            p->setSetpoint(s);
            p->process();
            out = z.setpoints.at(0).v;
            if (cfg.checkHysterWithSetpt && !(x > s + cfg.positiveHysteresis))
            {
                ran = false;
                everReset = true;
            }
        }
        else out = ec::pid(info, x, s);
        c.log << "in=" << num(x) << " sp=" << num(s) << " out=" << num(out) << " integral=" << num(info->integral) << "\n";
        VP_CHECK(c, std::isfinite(out) || !std::isfinite(x - s) || std::fabs(x) > 1e250 || std::fabs(s) > 1e250,
                 "finite", "step " << k << ": output is not finite");
        if (!std::isfinite(out)) break;
        if (ran)
        {
            double eps = 1e-9 * (1 + std::fabs(out) + (std::isnan(last) ? 0 : std::fabs(last)));
            bool first = std::isnan(last);
            if (out < cfg.outLim.min - eps)
                VP_CHECK(c, !first && everReset && cfg.slewPos != 0 && out >= last + cfg.slewPos * cfg.ts - eps, "range",
                         "step " << k << ": output " << num(out) << " is below " << cfg.outLim.min
                                 << " and no slew limit explains it (previous " << num(last) << ")");
            if (out > cfg.outLim.max + eps)
                VP_CHECK(c, !first && everReset && cfg.slewNeg != 0 && out <= last + cfg.slewNeg * cfg.ts + eps, "range",
                         "step " << k << ": output " << num(out) << " is above " << cfg.outLim.max
                                 << " and no slew limit explains it (previous " << num(last) << ")");
            atLimit += out <= cfg.outLim.min + eps || out >= cfg.outLim.max - eps;
        }
        // slew: from one computed step to the next (the first computation has
        // no previous output to be limited against)
        if (ran && computedBefore)
        {
            double eps = 1e-9 * (1 + std::fabs(out) + std::fabs(last));
            if (cfg.slewPos != 0)
            {
                VP_CHECK(c, out - last <= cfg.slewPos * cfg.ts + eps, "slew",
                         "step " << k << ": rose from " << num(last) << " to " << num(out)
                                 << ", more than " << cfg.slewPos << "/s allows");
                slewBound += out - last >= cfg.slewPos * cfg.ts - eps;
            }
            if (cfg.slewNeg != 0)
            {
                VP_CHECK(c, out - last >= cfg.slewNeg * cfg.ts - eps, "slew",
                         "step " << k << ": fell from " << num(last) << " to " << num(out)
                                 << ", more than " << cfg.slewNeg << "/s allows");
                slewBound += out - last <= cfg.slewNeg * cfg.ts + eps;
            }
        }
        computedBefore = computedBefore || ran;
        if (ran)
            VP_CHECK(c, info->integral >= cfg.integralLimit.min && info->integral <= cfg.integralLimit.max,
                     "integral", "step " << k << ": integral " << num(info->integral)
                                         << " is outside [" << cfg.integralLimit.min << ","
                                         << cfg.integralLimit.max << "]");
        last = out;
        c.sig(x);
        c.sig(s);
    }
    c.count("steps", uint64_t(n));
    c.count("outputs at a limit", uint64_t(atLimit));
    c.count("steps held by a slew limit", uint64_t(slewBound));
    c.count("extreme inputs", uint64_t(extremes));
    if (atLimit || slewBound) c.nontrivial();
}

// No windup: however long the saturation lasted, what follows is the same, and
// the limit is left at the first step whose terms call for it.
void windup(Case& c)
{
    auto cfg = ref::genPid(c.rng);
    if (c.rng.chance(0.6)) { cfg.integralCoeff = c.rng.real(0.05, 2); cfg.integralLimit = {-100, 100}; }
    ref::sig(c, cfg);
    c.log << ref::show(cfg) << "\n";
    double sp = c.rng.coarse(0, 100, 1);
    double ext = c.rng.of({-1e4, 1e4, -1e6, 1e6});
    int extra = int(c.rng.range(1, 400));
    ec::pid_info_t a, b;
    initializePIDStruct(&a, cfg);
    initializePIDStruct(&b, cfg);
    ref::Pid m{cfg};
    // long enough to be at the limits for good
    double prev = vp::NaN;
    int same = 0, n = 0;
    for (; n < 4000 && same < 5; n++)
    {
        double o = ec::pid(&a, ext, sp);
        ec::pid(&b, ext, sp);
        double mi = m.integral;
        m.step(ext, sp);
        same = o == prev && m.integral == mi ? same + 1 : 0;
        prev = o;
    }
    if (same < 5) { c.count("not settled"); return; }
    for (int k = 0; k < extra; k++)
    {
        double o = ec::pid(&b, ext, sp);
        VP_CHECK(c, vp::close(o, prev, 1e-9, 1e-9), "windup", "the output of a saturated controller moved from "
                 << num(prev) << " to " << num(o));
    }
    ref::Wave in(c.rng, sp - 40, sp + 40);
    int left = 0;
    for (int k = 0; k < 60; k++)
    {
        double x = in.next();
        double oa = ec::pid(&a, x, sp), ob = ec::pid(&b, x, sp), w = m.step(x, sp);
        c.log << "in=" << num(x) << " out=" << num(oa) << " after longer saturation=" << num(ob) << "\n";
        VP_CHECK(c, m.same(oa, ob), "windup",
                 "step " << k << " after saturation: " << num(oa) << " but " << num(ob) << " when it lasted "
                         << extra << " steps longer");
        VP_CHECK(c, m.same(oa, w), "leave-limit",
                 "step " << k << " after saturation: output " << num(oa) << " where the terms call for " << num(w));
        if (oa != prev) left = 1;
        c.sig(x);
    }
    c.count("saturations left", uint64_t(left));
    if (left) c.nontrivial();
}

// ---------------------------------------------------------------- C03
void hyst(Case& c)
{
    auto cfg = ref::genPid(c.rng, true);
    if (cfg.positiveHysteresis == 0 && cfg.negativeHysteresis == 0 && c.rng.chance(0.8))
        cfg.positiveHysteresis = c.rng.coarse(0.5, 5, 0.5);
    if (cfg.proportionalCoeff == 0) cfg.proportionalCoeff = -1.5;
    ref::sig(c, cfg);
    bool fan = c.rng.chance(0.25);
    double sp = c.rng.coarse(20, 90, 0.5);
    c.log << ref::show(cfg) << " setpoint=" << sp << (fan ? " fan" : " thermal") << "\n";
    ref::FakeZone z;
    std::unique_ptr<PIDController> p;
    if (fan) p = FanController::createFanPid(&z, "h", {"x"}, cfg);
    else
    {
        std::vector<conf::SensorInput> ins(1);
        ins[0].name = "x";
        p = ThermalController::createThermalPid(&z, "h", ins, sp, cfg, ThermalType::absolute);
    }
    ref::HystPid m;
    m.pid.c = cfg;
    vp::Silence quiet;
    double x = sp + c.rng.coarse(-6, 6, 0.25);
    int n = steps(c);
    int kinds[4] = {0, 0, 0, 0};
    for (int k = 0; k < n; k++)
    {
        // stay near the band edges, often exactly on them
        double anchor = cfg.checkHysterWithSetpt ? sp : (std::isfinite(m.latched) ? m.latched : x);
        switch (c.rng.range(0, 9))
        {
            case 0: x = anchor + cfg.positiveHysteresis; break;
            case 1: x = anchor - cfg.negativeHysteresis; break;
            case 2: x = std::nextafter(anchor + cfg.positiveHysteresis, 1e9); break;
            case 3: x = std::nextafter(anchor - cfg.negativeHysteresis, -1e9); break;
            case 4: x = anchor + c.rng.coarse(-8, 8, 0.25); break;
            case 5: x += c.rng.coarse(-1, 1, 0.25); break;
            case 6: x = anchor + cfg.positiveHysteresis * c.rng.of({0.5, 1.5, 3.0}); break;
            case 7: x = anchor - cfg.negativeHysteresis * c.rng.of({0.5, 1.5, 3.0}); break;
            case 8: break;
            default: x = c.rng.coarse(1, 150, 0.5); break;
        }
        if (x <= 0 && fan) x = 0.5;
        if (c.rng.chance(0.06)) sp = c.rng.coarse(20, 90, 0.5);
        z.cache["x"] = {x, x};
        z.setpoints.clear();
        double got;
        if (fan)
        {
            z.maxSp = sp;
            z.rec("x").writes.clear();
            p->process();
            got = z.rec("x").writes.at(0).value * 100;
        }
        else
        {
            p->setSetpoint(sp);
            p->process();
            got = z.setpoints.at(0).v;
        }
        double want = m.step(x, sp);
        kinds[m.what]++;
        c.log << "in=" << num(x) << " sp=" << num(sp) << " out=" << num(got) << " want=" << num(want)
              << " (" << (m.what == 0 ? "acts" : m.what == 1 ? "holds" : m.what == 2 ? "off" : "keeps reading") << ")\n";
        VP_CHECK(c, m.pid.same(got, want), "hysteresis",
                 "step " << k << ": output " << num(got) << ", expected " << num(want));
        if (m.what == ref::HystPid::OFF)
            VP_CHECK(c, p->getPIDInfo()->integral == 0, "hysteresis-integral",
                     "step " << k << ": integral " << p->getPIDInfo()->integral << " below the band");
        c.sig(x);
    }
    c.count("acted on the reading", uint64_t(kinds[0]));
    c.count("held the output", uint64_t(kinds[1]));
    c.count("off below the band", uint64_t(kinds[2]));
    c.count("kept the accepted reading", uint64_t(kinds[3]));
    if (kinds[1] + kinds[2] + kinds[3] > 0) c.nontrivial();
}

// ---------------------------------------------------------------- C04
ec::StepwiseInfo genSteps(vp::Rng& r, int& n)
{
    ec::StepwiseInfo s{};
    s.ts = 1;
    n = int(r.of({1, 2, 3, 5, 10, 19, 20, 20, int(r.range(1, 20))}));
    double x = r.coarse(-10, 40, 0.5), y = r.coarse(0, 50, 0.5);
    for (size_t i = 0; i < ec::maxStepwisePoints; i++)
    {
        if (int(i) >= n) { s.reading[i] = s.output[i] = vp::NaN; continue; }
        s.reading[i] = x;
        s.output[i] = r.chance(0.15) ? r.coarse(0, 100, 0.5) : y;
        x += r.chance(0.1) ? 0 : r.coarse(0.5, 8, 0.5);
        y += r.coarse(0, 10, 0.5);
    }
    if (r.chance(0.6))
    {
        s.positiveHysteresis = r.of({0.0, 0.5, 1.0, 3.0, r.real(0, 6)});
        s.negativeHysteresis = r.of({0.0, 0.5, 1.0, 3.0, r.real(0, 6)});
    }
    s.isCeiling = r.chance(0.3);
    return s;
}
double table(const ec::StepwiseInfo& s, int n, double x)
{
    double v = s.output[0];
    for (int i = 0; i < n; i++)
        if (s.reading[i] <= x) v = s.output[i];
    return v;
}
double nearPoint(vp::Rng& r, const ec::StepwiseInfo& s, int n)
{
    double p = s.reading[r.range(0, n - 1)];
    switch (r.range(0, 6))
    {
        case 0: return p;
        case 1: return std::nextafter(p, -1e9);
        case 2: return std::nextafter(p, 1e9);
        case 3: return p + r.coarse(-3, 3, 0.25);
        case 4: return s.reading[n - 1] + r.of({0.0, 0.5, 100.0, 1e9});
        case 5: return s.reading[0] - r.of({0.5, 100.0, 1e9});
        default: return r.real(-50, 250);
    }
}
void logTable(Case& c, const ec::StepwiseInfo& s, int n)
{
    c.log << "table";
    for (int i = 0; i < n; i++) { c.log << " " << s.reading[i] << ":" << s.output[i]; c.sig(s.reading[i]); c.sig(s.output[i]); }
    c.log << " hyst +" << s.positiveHysteresis << " -" << s.negativeHysteresis << (s.isCeiling ? " ceiling" : "") << "\n";
    c.sig(s.positiveHysteresis);
    c.sig(s.negativeHysteresis);
}
void stepTable(Case& c)
{
    int n;
    auto s = genSteps(c.rng, n);
    logTable(c, s, n);
    int inner = 0;
    for (int k = 0; k < 40; k++)
    {
        double x = nearPoint(c.rng, s, n);
        double got = ec::stepwise(s, x), want = table(s, n, x);
        VP_CHECK(c, got == want, "table", "input " << num(x) << " gives " << num(got) << ", the table says " << num(want));
        inner += x >= s.reading[0];
    }
    c.count("table lookups", 40);
    if (n == 20) c.count("tables of twenty points");
    if (inner && n > 1) c.nontrivial();
}
void stepCtl(Case& c)
{
    int n;
    auto s = genSteps(c.rng, n);
    logTable(c, s, n);
    int ni = int(c.rng.range(1, 4));
    std::vector<std::string> names;
    for (int i = 0; i < ni; i++) names.push_back("s" + std::to_string(i));
    ref::FakeZone z;
    auto p = StepwiseController::createStepwiseController(&z, "sw", names, s);
    double lastIn = vp::NaN, lastOut = vp::NaN;
    int held = 0, moved = 0;
    int N = int(c.rng.of({5, 20, 60}));
    for (int k = 0; k < N; k++)
    {
        double top = std::numeric_limits<double>::lowest();
        bool valid = false;
        for (auto& nm : names)
        {
            double x;
            switch (c.rng.range(0, 6))
            {
                case 0: x = vp::NaN; break;
                case 1: x = std::isnan(lastIn) ? nearPoint(c.rng, s, n) : lastIn + s.positiveHysteresis; break;
                case 2: x = std::isnan(lastIn) ? nearPoint(c.rng, s, n) : lastIn - s.negativeHysteresis; break;
                case 3: x = std::isnan(lastIn) ? nearPoint(c.rng, s, n) : lastIn + c.rng.coarse(-4, 4, 0.25); break;
                default: x = nearPoint(c.rng, s, n); break;
            }
            if (!std::isfinite(x) && !std::isnan(x)) x = 0;
            // earlier all-invalid input leaves no finite reference
            if (std::fabs(x) > 1e12) x = 20;
            z.cache[nm] = {x, x};
            c.log << nm << "=" << num(x) << " ";
            if (!std::isnan(x)) { top = std::max(top, x); valid = true; }
            c.sig(x);
        }
        (void)valid;
        bool eval = std::isnan(lastOut) || top - lastIn > s.positiveHysteresis || lastIn - top > s.negativeHysteresis;
        if (eval) { lastOut = table(s, n, top); lastIn = top; moved++; }
        else held++;
        z.setpoints.clear();
        z.ceilings.clear();
        p->process();
        c.log << "-> want " << num(lastOut) << "\n";
        if (s.isCeiling)
            VP_CHECK(c, z.ceilings.size() == 1 && z.setpoints.empty() && z.ceilings[0] == lastOut, "ceiling",
                     "cycle " << k << ": ceilings " << z.ceilings.size() << " set-points " << z.setpoints.size()
                              << (z.ceilings.empty() ? "" : " value " + num(z.ceilings[0])) << ", expected one ceiling " << num(lastOut));
        else
            VP_CHECK(c, z.setpoints.size() == 1 && z.ceilings.empty() && z.setpoints[0].v == lastOut && z.setpoints[0].name == "sw",
                     "stepwise", "cycle " << k << ": set-points " << z.setpoints.size()
                              << (z.setpoints.empty() ? "" : " value " + num(z.setpoints[0].v)) << ", expected " << num(lastOut));
    }
    c.count("stepwise cycles held by hysteresis", uint64_t(held));
    c.count("stepwise cycles evaluated", uint64_t(moved));
    if (moved > 1) c.nontrivial();
}

// ---------------------------------------------------------------- C05
void thermalInput(Case& c)
{
    ThermalType ty = c.rng.of({ThermalType::margin, ThermalType::absolute, ThermalType::summation});
    const char* tn = ty == ThermalType::margin ? "margin" : ty == ThermalType::absolute ? "temp" : "powersum";
    int ni = int(c.rng.of({1, 2, 2, 3, 4, 5, 8, 12}));
    std::vector<conf::SensorInput> ins;
    for (int i = 0; i < ni; i++)
    {
        conf::SensorInput in;
        in.name = "s" + std::to_string(i);
        // conversions may stand on any class; only margin converts
        if (c.rng.chance(0.45))
        {
            in.convertTempToMargin = true;
            in.convertMarginZero = c.rng.of({100.0, 95.5, 0.0, -10.0, 70.0, c.rng.real(0, 120)});
        }
        in.missingIsAcceptable = c.rng.chance(0.2);
        ins.push_back(in);
    }
    if (c.rng.chance(0.1) && ni > 1) ins[1].name = ins[0].name; // same sensor twice
    double sp = c.rng.coarse(-5, 90, 0.5);
    ec::pidinfo cfg;
    cfg.ts = 1;
    cfg.proportionalCoeff = -1;
    cfg.outLim = {-1e300, 1e300};
    ref::FakeZone z;
    auto p = ThermalController::createThermalPid(&z, "tc", ins, sp, cfg, ty);
    c.log << tn << " inputs=" << ni << " setpoint=" << sp << "\n";
    int N = int(c.rng.range(1, 12)), bad = 0, none = 0;
    for (int k = 0; k < N; k++)
    {
        double mn = vp::INF, mx = -vp::INF, sum = 0, mag = std::fabs(sp);
        bool any = false;
        double pBad = c.rng.of({0.0, 0.2, 0.6, 1.0});
        for (auto& in : ins)
        {
            double x;
            if (c.rng.chance(pBad)) x = c.rng.of({vp::NaN, vp::INF, -vp::INF});
            else
                switch (c.rng.range(0, 6))
                {
                    case 0: x = 0; break;
                    case 1: x = -c.rng.coarse(0, 100, 0.5); break;
                    case 2: x = c.rng.of({1e6, -1e6, 1e-9, 1e9, -1e9}); break;
                    case 3: x = sp; break;
                    default: x = c.rng.coarse(0, 110, 0.25); break;
                }
            z.cache[in.name] = {x, c.rng.coarse(0, 5000, 1)};
        }
        for (auto& in : ins)
        {
            double x = z.cache[in.name].scaled;
            c.log << in.name << (in.convertTempToMargin ? "[" + num(in.convertMarginZero) + "]" : "") << "=" << num(x) << " ";
            c.sig(x);
            if (!std::isfinite(x)) { bad++; continue; }
            if (ty == ThermalType::margin && in.convertTempToMargin) x = in.convertMarginZero - x;
            any = true;
            mn = std::min(mn, x);
            mx = std::max(mx, x);
            sum += x;
            mag = std::max(mag, std::fabs(x));
        }
        double want = !any ? sp : ty == ThermalType::margin ? mn : ty == ThermalType::absolute ? mx : sum;
        none += !any;
        c.log << "-> " << num(want) << "\n";
        double got = p->inputProc();
        VP_CHECK(c, std::fabs(got - want) <= 1e-12 * mag * ni + 1e-12, "input",
                 "cycle " << k << ": input " << num(got) << ", expected " << num(want));
        z.setpoints.clear();
        p->process(); // proportional only: output = input - setpoint
        double out = z.setpoints.at(0).v;
        VP_CHECK(c, std::fabs(out - (want - sp)) <= 1e-9 * mag * ni + 1e-12, "input-effect",
                 "cycle " << k << ": output " << num(out) << ", input minus set-point is " << num(want - sp));
    }
    c.count(std::string("input choices ") + tn, uint64_t(N));
    c.count("non-finite readings", uint64_t(bad));
    c.count("cycles without a valid reading", uint64_t(none));
    if (ni > 1 || none) c.nontrivial();
}

// ---------------------------------------------------------------- C13
void fanInput(Case& c)
{
    int nf = int(c.rng.of({1, 2, 3, 4, 6, 8}));
    std::vector<std::string> names;
    for (int i = 0; i < nf; i++) names.push_back("fan" + std::to_string(i));
    ec::pidinfo cfg;
    cfg.ts = 1;
    bool ff = c.rng.chance(0.4);
    cfg.proportionalCoeff = ff ? 0 : c.rng.of({1.0, 0.01, 0.5});
    cfg.feedFwdGain = ff ? 1 : 0;
    cfg.outLim = {-1e9, 1e9};
    ref::FakeZone z;
    z.id = c.rng.range(0, 9);
    auto p = FanController::createFanPid(&z, "fc", names, cfg);
    for (auto& f : names) z.rec(f).reportsRaw = c.rng.chance(0.7);
    vp::Silence quiet;
    int N = int(c.rng.range(2, 20)), zero = 0, some = 0;
    for (int k = 0; k < N; k++)
    {
        if (c.rng.chance(0.5)) z.maxSp = c.rng.chance(0.6) ? c.rng.coarse(0, 15000, 50) : z.maxSp + c.rng.of({0.25, -0.25, 0.01, 1.0, 3.0, 1e-4});
        z.redundant = c.rng.chance(0.3);
        double mn = vp::INF;
        int cls = int(c.rng.range(0, 3));
        for (auto& f : names)
        {
            double u;
            switch (c.rng.range(0, cls == 0 ? 3 : 9))
            {
                case 0: u = 0; break;
                case 1: u = vp::NaN; break;
                case 2: u = c.rng.of({-1.0, -500.0, -0.0}); break;
                case 3: u = c.rng.of({vp::INF, -vp::INF}); break;
                case 4: u = c.rng.of({0.5, 1e-9, 1.0}); break;
                default: u = c.rng.coarse(100, 15000, 25); break;
            }
            // the scaled value disagrees with the unscaled one on purpose
            z.cache[f] = {c.rng.of({u / 20000, vp::NaN, 0.0, 0.7, -3.0, 1.0}), u};
            c.log << f << "=" << num(u) << " ";
            c.sig(u);
            if (std::isfinite(u) && u > 0) mn = std::min(mn, u);
        }
        double want = std::isinf(mn) ? 0 : mn;
        (want == 0 ? zero : some)++;
        double got = p->inputProc();
        c.log << " sp=" << z.maxSp << "\n";
        VP_CHECK(c, got == want, "fan-input", "cycle " << k << ": input " << num(got) << ", expected " << num(want));
        for (auto& f : names) z.rec(f).writes.clear();
        z.outCache.clear();
        p->process();
        double duty = (ff ? z.maxSp : cfg.proportionalCoeff * (z.maxSp - want)) / 100;
        for (auto& f : names)
        {
            auto& w = z.rec(f).writes;
            VP_CHECK(c, w.size() == 1, "fan-writes", "cycle " << k << ": " << f << " was written " << w.size() << " times");
            VP_CHECK(c, std::fabs(w[0].value - duty) <= 1e-9 * (1 + std::fabs(duty)), "fan-duty",
                     "cycle " << k << ": " << f << " got " << num(w[0].value) << ", expected " << num(duty));
        }
        VP_CHECK(c, z.sensors.size() == names.size(), "fan-writes", "another sensor was touched");
        c.sig(z.maxSp);
    }
    c.count("cycles with a spinning fan", uint64_t(some));
    c.count("cycles without a spinning fan", uint64_t(zero));
    if (nf > 1) c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
    return vp::run(argc, argv,
                   {
                       {"law_core", lawCore, 12000, 300000, 100000},
                       {"law_overflow", lawOverflow, 8000, 200000, 100000},
                       {"law_thermal", lawThermal, 4000, 80000, 100000},
                       {"law_fan", lawFan, 4000, 80000, 100000},
                       {"limits", limitsCore, 12000, 300000, 100000},
                       {"windup", windup, 4000, 60000, 100000},
                       {"hysteresis", hyst, 12000, 300000, 100000},
                       {"step_table", stepTable, 8000, 200000, 100000},
                       {"step_ctl", stepCtl, 8000, 200000, 100000},
                       {"thermal_input", thermalInput, 12000, 300000, 100000},
                       {"fan_input", fanInput, 8000, 200000, 100000},
                   });
}
