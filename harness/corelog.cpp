// The core log: every controller's rows against the terms of the control law
// (C20).
#include "pid/ec/logging.hpp"
#include "pid/ec/pid.hpp"
#include "pid/fancontroller.hpp"
#include "pid/thermalcontroller.hpp"
#include "pid/tuning.hpp"
#include "ref.hpp"
#include "util.hpp"

#include <filesystem>
#include <set>

using namespace pid_control;
using vp::Case;
using vp::num;
namespace fs = std::filesystem;

namespace
{
std::vector<std::string> opened;
void noteOpen(const char* p, bool write)
{
    if (write) opened.push_back(p);
}
struct Call
{
    int64_t ms;
    ref::Pid::Terms t;
    double got, tol;
    bool fresh;  // the first of a controller that was set up (again)
    bool steady; // surely the same in every term as the call before
};
struct Ctl
{
    std::string name, clean;
    bool fan = false, logged = true;
    ec::pidinfo cfg;
    ref::Pid m;
    std::unique_ptr<PIDController> p;
    std::vector<Call> calls;
    std::vector<std::pair<int64_t, ec::pidinfo>> inits;
    bool fresh = true, limited = false;
    double in = 0, sp = 0;
};
std::string cleanOf(const std::string& s)
{
    std::string o;
    for (char ch : s)
        if (isalnum(static_cast<unsigned char>(ch)) && static_cast<unsigned char>(ch) < 128) o += ch;
    return o;
}
std::vector<std::map<std::string, std::string>> csv(Case& c, const std::string& file)
{
    std::istringstream f(vp::readFile(file));
    std::vector<std::string> head;
    std::vector<std::map<std::string, std::string>> out;
    for (std::string l; std::getline(f, l);)
    {
        std::vector<std::string> v;
        std::istringstream s(l);
        for (std::string w; std::getline(s, w, ',');) v.push_back(w);
        if (head.empty()) { head = v; continue; }
        VP_CHECK(c, v.size() == head.size(), "core-columns",
                 file << ": a row has " << v.size() << " fields for " << head.size() << " columns");
        auto& m = out.emplace_back();
        for (size_t i = 0; i < v.size(); i++) m[head[i]] = v[i];
    }
    VP_CHECK(c, !head.empty(), "core-header", file << " has no header");
    return out;
}
bool sameText(const std::string& text, double want, double tol)
{
    char* e = nullptr;
    double x = std::strtod(text.c_str(), &e);
    if (!e || *e || text.empty()) return false;
    if (std::isnan(want) || std::isnan(x)) return std::isnan(want) && std::isnan(x);
    return x == want || std::fabs(x - want) <= 6e-6 * std::max(std::fabs(x), std::fabs(want)) + tol;
}
using TermP = double ref::Pid::Terms::*;
const std::vector<std::pair<const char*, TermP>> columns = {
    {"input", &ref::Pid::Terms::input}, {"setpoint", &ref::Pid::Terms::setpoint}, {"error", &ref::Pid::Terms::error},
    {"proportionalTerm", &ref::Pid::Terms::proportionalTerm}, {"integralTerm1", &ref::Pid::Terms::integralTerm1},
    {"integralTerm2", &ref::Pid::Terms::integralTerm2}, {"derivativeTerm", &ref::Pid::Terms::derivativeTerm},
    {"feedFwdTerm", &ref::Pid::Terms::feedFwdTerm}, {"output1", &ref::Pid::Terms::output1},
    {"output2", &ref::Pid::Terms::output2}, {"minOut", &ref::Pid::Terms::minOut}, {"maxOut", &ref::Pid::Terms::maxOut},
    {"integralTerm3", &ref::Pid::Terms::integralTerm3}, {"output3", &ref::Pid::Terms::output3},
    {"integralTerm", &ref::Pid::Terms::integralTerm}, {"output", &ref::Pid::Terms::output}};

void core(Case& c)
{
    static int serial = 0;
    auto& r = c.rng;
    vp::Silence quiet;
    vp::clock::enable(true);
    vp::clock::set(1700000000000000000ll + r.range(0, 999999999), 5000000000000ll);
    opened.clear();
    vp::fsjail::onOpen = noteOpen;
    coreLoggingEnabled = r.chance(0.93);
    loggingEnabled = tuningEnabled = debugEnabled = false;
    loggingPath = c.dir() + "/log";
    vp::mkdirs(loggingPath);
    ref::FakeZone z;
    std::vector<Ctl> cs(size_t(r.range(1, 4)));
    std::set<std::string> used;
    for (size_t i = 0; i < cs.size(); i++)
    {
        auto& k = cs[i];
        std::string id = std::to_string(++serial);
        k.name = r.of<std::string>({"Fan", "CPU0 PID", "Zone 1: inlet/left", "temp_a-b.c", "Linear_Temp_X", "\xc3\xa9t\xc3\xa9", "AZaz09@[`{/:"}) + id;
        if (r.chance(0.08)) k.name = r.of<std::string>({"---", " ", "_./"}) + std::string(size_t(serial % 7), '-');
        if (i && r.chance(0.1)) k.name = std::string(i, '_') + cs[0].name; // all different
        k.clean = cleanOf(k.name);
        k.fan = r.chance(0.35);
    }
    auto setUp = [&](Ctl& k) {
        k.cfg = ref::genPid(r);
        if (r.chance(0.5)) k.cfg.slewNeg = k.cfg.slewPos = 0;
        // smaller than any change of the input: the law is the same
        if (r.chance(0.3)) k.cfg.positiveHysteresis = r.of({0.001, 0.1, 0.2}), k.cfg.negativeHysteresis = r.of({0.0005, 0.05, 0.2});
        ref::sig(c, k.cfg);
        c.log << k.name << ": " << ref::show(k.cfg) << "\n";
        if (k.fan) k.p = FanController::createFanPid(&z, k.name, {k.name}, k.cfg);
        else
        {
            std::vector<conf::SensorInput> ins(1);
            ins[0].name = k.name;
            k.p = ThermalController::createThermalPid(&z, k.name, ins, 0, k.cfg, ThermalType::absolute);
        }
        k.m = ref::Pid{k.cfg};
        k.fresh = true;
    };
    for (auto& k : cs)
    {
        setUp(k);
        k.in = r.coarse(1, 100, 0.5);
        k.sp = r.coarse(1, 100, 0.5);
    }
    double pChange = r.of({0.02, 0.1, 0.5, 1.0});
    int n = int(r.of({20, 60, 200})), style = int(r.range(0, 3));
    for (int s = 0; s < n; s++)
    {
        int64_t ms = 0;
        switch (style)
        {
            case 0: ms = 1000; break;
            case 1: ms = r.range(1, 3000); break;
            case 2: ms = r.of<int64_t>({1000, 100, 29000, 30000, 59000, 59999, 60000, 60001, 61000}); break;
            default: ms = r.of<int64_t>({1000, 10000, 20000, 15000, 7000}); break;
        }
        vp::clock::advance(ms * vp::clock::ms);
        for (auto& k : cs)
        {
            if (r.chance(0.1)) continue;
            if (r.chance(0.01)) { setUp(k); c.count("controllers set up again"); }
            bool changed = false;
            if (r.chance(pChange)) { k.in = r.chance(0.5) ? k.in + r.coarse(-2, 2, 0.25) : r.coarse(1, 12000, 0.5); changed = true; }
            if (r.chance(pChange / 2)) { k.sp = r.chance(0.1) ? k.in : r.coarse(1, 100, 0.5); changed = true; }
            if (k.in <= 0) k.in = 1;
            z.cache[k.name] = {k.in, k.in};
            z.setpoints.clear();
            z.rec(k.name).writes.clear();
            if (k.fan) z.maxSp = k.sp;
            else k.p->setSetpoint(k.sp);
            double before = k.m.integral;
            if (coreLoggingEnabled && k.fresh && !k.clean.empty())
            {
                k.inits.push_back({vp::clock::wall() / vp::clock::ms, k.cfg});
                k.logged = k.logged && (k.calls.size() || used.insert(k.clean).second);
            }
            ref::Pid::Terms last = k.m.t;
            k.p->process();
            k.m.step(k.in, k.sp);
            double got = k.fan ? z.rec(k.name).writes.at(0).value * 100 : z.setpoints.at(0).v;
            bool still = !k.fresh && !changed && k.cfg.slewNeg == 0 && k.cfg.slewPos == 0 && last.derivativeTerm == 0 &&
                         k.m.t.derivativeTerm == 0 && k.m.integral == before &&
                         (k.cfg.integralCoeff == 0 || k.in == k.sp ||
                          (k.m.t.integralTerm1 == last.integralTerm1 && k.m.t.integralTerm1 != k.m.t.integralTerm2 &&
                           std::fabs(k.m.t.integralTerm1 - k.m.t.integralTerm2) > 1e-6));
            k.calls.push_back({vp::clock::wall() / vp::clock::ms, k.m.t, got, k.m.tol(), k.fresh, still});
            k.fresh = false;
            c.sig(k.in);
            c.sig(k.sp);
        }
    }
    vp::fsjail::onOpen = nullptr;
    for (auto& p : opened)
        VP_CHECK(c, p.rfind(loggingPath + "/", 0) == 0, "core-folder", "a file was created outside the logging folder: " << p);
    std::set<std::string> want, have;
    if (coreLoggingEnabled)
        for (auto& k : cs)
            if (k.calls.size() && !k.clean.empty()) want.insert("pidcore." + k.clean), want.insert("pidcoeffs." + k.clean);
    for (auto& e : fs::directory_iterator(loggingPath)) have.insert(e.path().filename());
    for (auto& f : want) VP_CHECK(c, have.count(f), "core-file", "there is no " << f);
    for (auto& f : have) VP_CHECK(c, want.count(f), "core-file", "there is a file " << f << " nobody asked for");
    uint64_t quietMinutes = 0, rowsSeen = 0, thr = 0;
    for (auto& k : cs)
    {
        if (!coreLoggingEnabled || k.clean.empty() || k.calls.empty() || !k.logged) continue;
        auto co = csv(c, loggingPath + "/pidcoeffs." + k.clean);
        VP_CHECK(c, co.size() == k.inits.size(), "core-coeffs",
                 k.name << ": " << co.size() << " rows of coefficients, the controller was set up " << k.inits.size() << " times");
        for (size_t i = 0; i < co.size(); i++)
        {
            auto& q = k.inits[i].second;
            const std::vector<std::pair<const char*, double>> v = {
                {"epoch_ms", double(k.inits[i].first)}, {"ts", q.ts}, {"proportionalCoeff", q.proportionalCoeff},
                {"integralCoeff", q.integralCoeff}, {"derivativeCoeff", q.derivativeCoeff},
                {"feedFwdOffset", q.feedFwdOffset}, {"feedFwdGain", q.feedFwdGain},
                {"integralLimit.min", q.integralLimit.min}, {"integralLimit.max", q.integralLimit.max},
                {"outLim.min", q.outLim.min}, {"outLim.max", q.outLim.max}, {"slewNeg", q.slewNeg}, {"slewPos", q.slewPos},
                {"positiveHysteresis", q.positiveHysteresis}, {"negativeHysteresis", q.negativeHysteresis}};
            for (auto& [col, x] : v)
                VP_CHECK(c, co[i].count(col) && sameText(co[i][col], x, 0), "core-coeffs",
                         k.name << ": " << col << " is logged as " << co[i][col] << ", it is " << num(x));
        }
        auto rows = csv(c, loggingPath + "/pidcore." + k.clean);
        size_t ri = 0;
        const Call* logged = nullptr; // the call of the last row
        for (auto& x : k.calls)
        {
            bool has = ri < rows.size() && rows[ri]["epoch_ms"] == std::to_string(x.ms);
            if (has)
            {
                for (auto& [col, m] : columns)
                    VP_CHECK(c, rows[ri].count(col) && sameText(rows[ri][col], x.t.*m, x.tol), "core-term",
                             k.name << " at " << x.ms << ": " << col << " is logged as " << rows[ri][col] << ", it was " << num(x.t.*m));
                VP_CHECK(c, sameText(rows[ri]["output"], x.got, x.tol), "core-output",
                         k.name << " at " << x.ms << ": output " << rows[ri]["output"] << " is logged, the controller gave " << num(x.got));
                if (logged && x.steady && !x.fresh && &x - logged >= 1 && (&x)[-1].steady && logged == &x - 1)
                    VP_CHECK(c, x.ms - logged->ms >= 60000, "core-throttle",
                             k.name << " at " << x.ms << ": the same row was written " << x.ms - logged->ms << " ms before");
                ri++;
                rowsSeen++;
                logged = &x;
                continue;
            }
            VP_CHECK(c, logged && !x.fresh, "core-missing", k.name << " at " << x.ms << ": the first step is not logged");
            VP_CHECK(c, x.ms - logged->ms < 60000, "core-minute",
                     k.name << " at " << x.ms << ": no row since " << logged->ms);
            for (auto& [col, m] : columns)
            {
                double a = x.t.*m, b = logged->t.*m;
                VP_CHECK(c, a == b || std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)) + x.tol + logged->tol,
                         "core-change", k.name << " at " << x.ms << ": " << col << " changed from " << num(b) << " to " << num(a)
                                               << " and was not logged");
            }
            if (x.steady) thr++;
            quietMinutes += x.ms - k.calls[0].ms > 60000;
        }
        VP_CHECK(c, ri == rows.size(), "core-extra",
                 k.name << ": " << rows.size() - ri << " rows belong to no step, the first at " << rows[ri]["epoch_ms"]);
    }
    c.count("core log rows checked", rowsSeen);
    c.count("steps without a row", quietMinutes);
    c.count("identical steps throttled", thr);
    coreLoggingEnabled = false;
    if (rowsSeen > 3) c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
    return vp::run(argc, argv, {{"core_log", core, 2000, 40000, 25}});
}
