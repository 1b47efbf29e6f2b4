// The setsensor tool (its own main) against real zones and external sensors on
// the simulated bus (C30); the fan sweep script run by the shell with stand-ins
// for the commands it gives and its files kept in a scratch directory (C31).
#include "config.h"
#include "dbus/dbuspassive.hpp"
#include "pid/zone.hpp"
#include "sensors/host.hpp"
#include "sensors/manager.hpp"
#include "vp.hpp"

#include <sdbusplus/bus.hpp>
#include <simbus/simbus.hpp>

#include <fcntl.h>
#include <grp.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <iostream>
#include <map>
#include <set>

using namespace pid_control;
using simbus::Sim;
using vp::Case;
using vp::num;

int setsensor_main(int, char**);

namespace
{
constexpr const char* FANCTRL = "xyz.openbmc_project.State.FanCtrl";
constexpr const char* HWMON = "xyz.openbmc_project.Hwmon.external";
const std::string CTRL = "/xyz/openbmc_project/settings/fanctrl/zone";
const std::string EXT = "/xyz/openbmc_project/extsensors/";

// what the tool says
std::string run(Case& c, int& rc)
{
    std::string file = c.dir() + "/said";
    fflush(stderr);
    std::cerr.flush();
    int keep = dup(2), f = open(file.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    dup2(f, 2);
    char name[] = "setsensor";
    char* argv[] = {name, nullptr};
    try
    {
        rc = setsensor_main(1, argv);
    }
    catch (...)
    {
        rc = -1;
    }
    fflush(stderr);
    dup2(keep, 2);
    close(keep);
    close(f);
    return vp::readFile(file);
}
// the line about a subject tells an outcome
int told(const std::string& said, const std::string& about)
{
    std::istringstream s(said);
    for (std::string l; std::getline(s, l);)
        if (l.find(about) != std::string::npos)
            return l.find("succe") != std::string::npos ? 1 : l.find("fail") != std::string::npos ? 0 : -1;
    return -1;
}

void tool(Case& c)
{
    auto& r = c.rng;
    auto& sim = Sim::get();
    sim.reset();
    vp::clock::enable(true);
    vp::clock::set(1700000000000000000ll + r.range(0, 999999999), 5000000000000ll);
    vp::Silence quiet;
    auto mode = sdbusplus::bus::new_default(), host = sdbusplus::bus::new_default(), passive = sdbusplus::bus::new_default();
    bool named = r.chance(0.9), hnamed = r.chance(0.9);
    if (named) mode.request_name(FANCTRL);
    if (hnamed) host.request_name(HWMON);
    SensorManager mgr(passive, host);
    std::map<int, std::unique_ptr<DbusPidZone>> zones;
    std::map<std::string, std::unique_ptr<Sensor>> ext;
    for (int id : {0, 1, 2, 10, 11, 100})
        if (r.chance(id == 1 ? 0.8 : 0.4))
            zones[id] = std::make_unique<DbusPidZone>(id, 1000, 75, conf::CycleTime(), mgr, mode, (CTRL + std::to_string(id)).c_str(), false, false);
    std::map<int, bool> manual;
    for (auto& [id, z] : zones)
    {
        manual[id] = r.chance(0.3);
        if (manual[id] || r.chance(0.2)) sim.ownSet(CTRL + std::to_string(id), "xyz.openbmc_project.Control.Mode", "Manual", simbus::toVal(bool(manual[id])));
    }
    std::map<std::string, std::pair<double, int64_t>> was;
    for (auto n : {"margin/sluggish0", "margin/sluggish1", "margin/sluggish00", "temperature/sluggish0", "margin/sluggish"})
        if (r.chance(std::string(n) == "margin/sluggish0" ? 0.8 : 0.4))
            ext[n] = HostSensor::createTemp(n, 2, host, (EXT + n).c_str(), true, false);
    for (auto& [n, s] : ext)
        if (r.chance(0.6)) sim.ownSet(EXT + n, "xyz.openbmc_project.Sensor.Value", "Value", simbus::toVal(r.coarse(-20, 400, 0.5)));
    for (auto& [n, s] : ext)
    {
        auto x = s->read();
        was[n] = {x.value, x.updated.time_since_epoch().count()};
    }
    int runs = int(r.range(1, 3));
    for (int k = 0; k < runs; k++)
    {
        vp::clock::advance(r.range(1, 5000) * vp::clock::ms);
        int rc = 0;
        uint64_t sets = sim.nSets;
        std::string said = run(c, rc);
        c.log << "said: " << said;
        bool z1 = named && zones.count(1), s0 = hnamed && ext.count("margin/sluggish0");
        VP_CHECK(c, rc == 0, "tool-ended", "setsensor ended with " << rc);
        if (z1) manual[1] = true;
        for (auto& [id, z] : zones)
            VP_CHECK(c, z->getManualMode() == manual[id], "tool-manual", "zone " << id << (named ? "" : " (unreachable)") << " is " << (z->getManualMode() ? "" : "not ") << "in manual mode after setsensor");
        int64_t now = vp::clock::wall();
        for (auto& [n, s] : ext)
        {
            auto x = s->read();
            bool its = s0 && n == "margin/sluggish0";
            double want = its ? 300 : was[n].first;
            int64_t at = its ? now : was[n].second;
            VP_CHECK(c, x.value == want, "tool-value", "external sensor " << n << (hnamed ? "" : " (unreachable)") << " reads " << num(x.value) << " after setsensor, expected " << num(want));
            VP_CHECK(c, x.updated.time_since_epoch().count() == at, "tool-stamp", "external sensor " << n << " has time " << x.updated.time_since_epoch().count() << ", expected " << at);
            was[n] = {want, at};
        }
        VP_CHECK(c, sim.nSets == sets, "tool-elsewhere", "setsensor set a property of another service");
        VP_CHECK(c, told(said, "manual mode") == int(z1), "tool-told", "setting the manual mode " << (z1 ? "worked" : "failed") << ", told was: " << said);
        VP_CHECK(c, told(said, "sensor") == int(s0), "tool-told", "setting the sensor " << (s0 ? "worked" : "failed") << ", told was: " << said);
        c.count(z1 ? "manual modes set" : "manual modes that cannot be set");
        c.count(s0 ? "sensors set" : "sensors that cannot be set");
        c.sig(uint64_t(z1 * 2 + s0));
        if (z1 && s0) c.nontrivial();
        for (auto& [id, z] : zones)
            if (r.chance(0.3))
            {
                manual[id] = r.chance(0.5);
                sim.ownSet(CTRL + std::to_string(id), "xyz.openbmc_project.Control.Mode", "Manual", simbus::toVal(bool(manual[id])));
            }
    }
    for (auto& [id, z] : zones) c.sig(uint64_t(id));
    for (auto& [n, s] : ext) c.sig(n);
}

// ---------------------------------------------------------------- C31
std::string besideMe(const std::string& f)
{
    char b[4096];
    auto n = readlink("/proc/self/exe", b, sizeof b - 1);
    std::string me(b, n > 0 ? size_t(n) : 0);
    return me.substr(0, me.rfind('/') + 1) + f;
}
// runs the script of the tree as an unprivileged user inside the scratch directory
int script(Case& c, const std::vector<std::string>& args, std::string& said)
{
    const std::string d = c.dir();
    const char* repo = getenv("VP_REPO");
    vp::writeFile(d + "/fan_rpm_loop_test.sh", vp::readFile(std::string(repo ? repo : "/repo") + "/tools/fan_rpm_loop_test.sh"));
    for (auto s : {"/bin", "/home", "/tmp", "/etc"}) vp::mkdirs(d + s), chmod((d + s).c_str(), 0777);
    vp::writeFile(d + "/jail.so", vp::readFile(besideMe("sweep-jail.so")));
    chmod((d + "/jail.so").c_str(), 0755);
    std::string standin = vp::readFile(besideMe("sweep-standin"));
    for (auto s : {"sleep", "systemctl", "mkdir", "mv"})
    {
        std::string p = d + "/bin/" + s;
        vp::writeFile(p, standin);
        chmod(p.c_str(), 0755);
    }
    vp::writeFile(d + "/trace", "");
    vp::writeFile(d + "/said", "");
    chmod((d + "/trace").c_str(), 0666);
    chmod((d + "/said").c_str(), 0666);
    chmod(d.c_str(), 0777);
    chmod((d + "/fan_rpm_loop_test.sh").c_str(), 0644);
    for (auto p = d.rfind('/'); p > 5; p = d.rfind('/', p - 1)) chmod(d.substr(0, p).c_str(), 0755);
    std::vector<std::string> a = {"bash", d + "/fan_rpm_loop_test.sh"}, e = {"PATH=" + d + "/bin:/usr/bin:/bin", "HOME=" + d + "/home", "VP_JAIL=" + d, "LD_PRELOAD=" + d + "/jail.so", "LC_ALL=C"};
    a.insert(a.end(), args.begin(), args.end());
    std::vector<char*> av, ev;
    for (auto& x : a) av.push_back(x.data());
    for (auto& x : e) ev.push_back(x.data());
    av.push_back(nullptr);
    ev.push_back(nullptr);
    std::string out = d + "/said";
    pid_t pid = fork();
    if (pid == 0)
    {
        int f = open(out.c_str(), O_WRONLY | O_TRUNC);
        dup2(f, 1);
        dup2(f, 2);
        int n = open("/dev/null", O_RDONLY);
        dup2(n, 0);
        if (chdir(d.c_str())) _exit(126);
        if (getuid() == 0)
            if (setgroups(0, nullptr) || setgid(65534) || setuid(65534)) { /* the scratch directory still holds */ }
        execve("/bin/bash", av.data(), ev.data());
        _exit(126);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    said = vp::readFile(out);
    return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
struct Held
{
    std::string value; // what the daemon's set-point file holds
    int64_t seconds;
    bool operator==(const Held&) const = default;
};
void hold(std::vector<Held>& v, const std::string& value, int64_t s)
{
    if (!v.empty() && v.back().value == value) v.back().seconds += s;
    else v.push_back({value, s});
}
std::string show(const std::vector<Held>& v)
{
    std::string s;
    for (auto& h : v) s += h.value + " for " + std::to_string(h.seconds) + " s, ";
    return s;
}

void sweep(Case& c)
{
    auto& r = c.rng;
    int64_t lo = r.chance(0.2) ? r.range(1, 30) : r.range(1, 20000);
    int64_t hi = r.chance(0.1) ? lo : r.chance(0.3) ? lo + r.range(0, 30) : lo + r.range(0, r.of<int64_t>({1000, 20000, 1000000}));
    std::vector<std::string> args = {std::to_string(lo), std::to_string(hi)};
    bool refused = r.chance(0.2);
    if (refused)
        switch (r.range(0, 4))
        {
            case 0: args = {"0", std::to_string(hi)}; break;
            case 1: args = {std::to_string(-lo), std::to_string(hi)}; break;
            case 2: args = {std::to_string(hi + r.range(1, 100)), std::to_string(hi)}; break;
            case 3: args = {std::to_string(lo)}; break;
            default: args = {};
        }
    std::string said;
    if (r.chance(0.5)) // a set-point of before
    {
        vp::mkdirs(c.dir() + "/etc/thermal.d");
        vp::writeFile(c.dir() + "/etc/thermal.d/setpoint", "7777\n");
        chmod((c.dir() + "/etc/thermal.d").c_str(), 0777);
        chmod((c.dir() + "/etc/thermal.d/setpoint").c_str(), 0666);
    }
    int rc = script(c, args, said);
    for (auto& a : args) c.log << a << " ";
    c.log << "ended with " << rc << "\n" << said;
    std::string trace = vp::readFile(c.dir() + "/trace");
    c.log << trace;
    if (refused)
    {
        VP_CHECK(c, rc != 0, "sweep-accepted", "the script accepts bounds that cannot be");
        VP_CHECK(c, trace.find("systemctl") == std::string::npos && trace.find("sleep") == std::string::npos, "sweep-effect", "the script refuses its bounds, but not before acting: " << trace);
        c.count("bounds refused");
        c.sig(uint64_t(args.size()));
        return;
    }
    VP_CHECK(c, rc == 0, "sweep-ended", "the script ended with " << rc << ": " << said);
    // A sweep that leaves the daemon's file alone is looked at all the same,
    // through the file it does write (known finding sweep-setpoint-file).
    const bool otherFile = trace.find("|set-point=") != std::string::npos;
    const std::string key = otherFile ? "|set-point=" : "|setpoint=";
    // what the daemon saw while it ran, run by run
    std::vector<std::vector<Held>> runs;
    std::vector<std::string> startedWith;
    bool running = true, settled = false; // the service may run when the script starts
    std::istringstream in(trace);
    for (std::string l; std::getline(in, l);)
    {
        auto bar = l.find('|');
        std::istringstream w(l.substr(0, bar));
        std::string cmd, a1, a2, sp;
        w >> cmd >> a1 >> a2;
        auto at = l.find(key);
        if (at != std::string::npos) sp = l.substr(at + key.size(), l.find('|', at + 1) - at - key.size());
        if (sp.size() > 2 && sp.ends_with("\\n")) sp.resize(sp.size() - 2);
        if (cmd == "systemctl")
        {
            VP_CHECK(c, a2 == "phosphor-pid-control.service" || a2 == "phosphor-pid-control", "sweep-service", "the script acts on the service " << a2);
            if (a1 == "stop") running = false, settled = true;
            else if (a1 == "start")
            {
                VP_CHECK(c, settled, "sweep-stale", "a run starts while the service may still run the one before");
                running = true, settled = false;
                runs.emplace_back();
                startedWith.push_back(sp);
            }
            else c.fail("sweep-service", "the script asks the service to " + a1);
        }
        else if (cmd == "sleep" && !runs.empty() && running)
            hold(runs.back(), sp, std::stoll(a1));
    }
    VP_CHECK(c, !running, "sweep-left", "the service still runs after the script");
    struct Plan { int64_t from, to; int steps; };
    std::vector<Plan> plan = {{lo, hi, 10}, {hi, lo, 10}, {lo, hi, 1}, {hi, lo, 1}};
    VP_CHECK(c, runs.size() == plan.size(), "sweep-runs", "the script makes " << runs.size() << " runs");
    long logAt = -1;
    for (size_t i = 0; i < plan.size(); i++)
    {
        auto& p = plan[i];
        std::vector<Held> want;
        hold(want, std::to_string(p.from), 60);
        for (int k = 0; k <= p.steps; k++)
        { // both ways through the same speeds, a half counts as the higher one
            int64_t num = (p.to - p.from) * k, q = p.from;
            int64_t twice = 2 * num + p.steps, den = 2 * p.steps;
            q += twice >= 0 ? twice / den : -((-twice + den - 1) / den);
            hold(want, std::to_string(q), 30);
        }
        VP_CHECK(c, startedWith[i] == std::to_string(p.from), "sweep-start", "run " << i << " from " << p.from << " to " << p.to << " starts the daemon with a set-point of '" << startedWith[i] << "'");
        VP_CHECK(c, runs[i] == want, "sweep-held", "run " << i << " from " << p.from << " to " << p.to << " held " << show(runs[i]) << "expected " << show(want));
        c.count("set-points held", runs[i].size());
        std::string log = c.dir() + "/home/" + std::to_string(p.from) + "_" + std::to_string(p.to) + "_" + std::to_string(p.steps) + "_30.csv";
        std::string kept = vp::readFile(log);
        VP_CHECK(c, !kept.empty(), "sweep-log", "the log of run " << i << " was not kept as " << log);
        // the stand-in's daemon writes a number that grows from run to run
        long at = -1;
        sscanf(kept.c_str(), "run at %ld", &at);
        if (lo != hi)
        {
            VP_CHECK(c, at > logAt && std::count(kept.begin(), kept.end(), '\n') == 1, "sweep-log", log << " is not the log of run " << i << " alone: " << kept);
            logAt = at;
        }
    }
    c.sig(uint64_t(lo));
    c.sig(uint64_t(hi));
    if (hi > lo) c.nontrivial();
    VP_CHECK(c, !otherFile, "sweep-setpoint-file", "the speeds are put into /etc/thermal.d/set-point; the daemon reads /etc/thermal.d/setpoint");
}
} // namespace

int main(int argc, char** argv)
{
    return vp::run(argc, argv, {{"tool", tool, 1000, 20000, 100}, {"sweep", sweep, 200, 4000, 20}});
}
