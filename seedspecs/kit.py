ZONE_SRCS = ["pid/zone.cpp", "pid/builder.cpp", "pid/fancontroller.cpp", "pid/thermalcontroller.cpp", "pid/stepwisecontroller.cpp",
             "pid/pidcontroller.cpp", "pid/util.cpp", "pid/tuning.cpp", "pid/pidloop.cpp", "pid/ec/pid.cpp", "pid/ec/stepwise.cpp", "pid/ec/logging.cpp",
             "sensors/manager.cpp", "failsafeloggers/failsafe_logger.cpp", "failsafeloggers/failsafe_logger_utility.cpp", "util.cpp"]
KIT = r'''
#include "pid/builder.hpp"
#include "pid/pidloop.hpp"
#include "pid/tuning.hpp"
#include "pid/zone_interface.hpp"
#include "sensors/manager.hpp"
#include "sensors/sensor.hpp"
#include "simbus/simbus.hpp"
#include <sdbusplus/bus.hpp>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace pid_control;
using Clock = std::chrono::high_resolution_clock;
struct Fake : Sensor
{
    using Sensor::Sensor;
    double v = 50;
    bool failed = false;
    Clock::duration age{};
    std::vector<double> writes;
    std::vector<bool> forced;
    ReadReturn read() override { return {v, Clock::now() - age, v}; }
    void write(double x) override { writes.push_back(x); forced.push_back(false); }
    void write(double x, bool f, int64_t* w) override { writes.push_back(x); forced.push_back(f); if (w) *w = int64_t(x * 255); }
    bool getFailed() override { return failed; }
};
struct Rig
{
    sdbusplus::bus_t bus = sdbusplus::bus::new_default(), host = sdbusplus::bus::new_default(), mode = sdbusplus::bus::new_default();
    SensorManager mgr{bus, host};
    std::map<std::string, Fake*> s;
    std::map<int64_t, conf::PIDConf> pids;
    std::map<int64_t, conf::ZoneConfig> zones;
    std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> z;
    Fake& sensor(const std::string& n, const char* type, int64_t timeout = 0)
    {
        auto p = std::make_unique<Fake>(n, timeout);
        s[n] = p.get();
        mgr.addSensor(type, n, std::move(p));
        return *s[n];
    }
    // output = gain * setpoint (constant), inside wide limits
    conf::ControllerInfo& pid(int64_t zone, const std::string& n, const std::string& type, std::vector<std::string> in, double setpoint = 0)
    {
        auto& c = pids[zone][n];
        c.type = type;
        for (auto& i : in) { conf::SensorInput x; x.name = i; c.inputs.push_back(x); }
        c.setpoint = setpoint;
        c.pidInfo = {};
        c.pidInfo.ts = 0.1;
        c.pidInfo.feedFwdGain = type == "fan" ? 0.01 : 1;
        c.pidInfo.outLim = {0, type == "fan" ? 100.0 : 1e6};
        return c;
    }
    conf::ZoneConfig& zone(int64_t id, double min = 0, double failsafe = 75)
    {
        auto& c = zones[id];
        c.minThermalOutput = min;
        c.failsafePercent = failsafe;
        c.accumulateSetPoint = false;
        return c;
    }
    void build() { z = buildZones(pids, zones, mgr, mode); for (auto& [_, x] : z) x->initializeCache(); }
    void thermal(int64_t id)
    {
        auto& x = *z.at(id);
        x.updateSensors(); x.clearSetPoints(); x.clearRPMCeilings(); x.processThermals(); x.determineMaxSetPointRequest();
    }
    void fans(int64_t id) { z.at(id)->updateFanTelemetry(); z.at(id)->processFans(); }
    std::string prop(int64_t zone, const std::string& sub, const std::string& name);
};
'''
