#pragma once
#include "xyz/openbmc_project/Debug/Pid/ThermalPower/common.hpp"
#include "sdbusplus/bus.hpp"
#include "simbus/simbus.hpp"
#include <cerrno>
#include <limits>
namespace sdbusplus::xyz::openbmc_project::Debug::Pid::server
{
class ThermalPower : public sdbusplus::common::xyz::openbmc_project::debug::pid::ThermalPower, public simbus::ServerIface
{
  public:
    ThermalPower(sdbusplus::bus_t& b, const char* path) : _bus(b.sim()), _path(path)
    {
        auto& slot = _bus->objects[_path];
        if (slot.contains(sdbusplus::common::xyz::openbmc_project::debug::pid::ThermalPower::interface))
            throw sdbusplus::exception::SdBusError(EEXIST, "sd_bus_add_object_vtable");
        slot[sdbusplus::common::xyz::openbmc_project::debug::pid::ThermalPower::interface] = this;
    }
    ThermalPower(const ThermalPower&) = delete;
    ThermalPower& operator=(const ThermalPower&) = delete;
    ~ThermalPower() override
    {
        auto it = _bus->objects.find(_path);
        if (it == _bus->objects.end()) return;
        auto i = it->second.find(sdbusplus::common::xyz::openbmc_project::debug::pid::ThermalPower::interface);
        if (i != it->second.end() && i->second == this) it->second.erase(i);
        if (it->second.empty()) _bus->objects.erase(it);
    }
    virtual std::string classType() const { return _classType; }
    virtual std::string classType(std::string v, bool skip)
    {
        if (_classType != v)
        {
            _classType = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::debug::pid::ThermalPower::interface, "ClassType");
        }
        return _classType;
    }
    virtual std::string classType(std::string v) { return ThermalPower::classType(v, false); }
    virtual double setpoint() const { return _setpoint; }
    virtual double setpoint(double v, bool skip)
    {
        if (_setpoint != v)
        {
            _setpoint = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::debug::pid::ThermalPower::interface, "Setpoint");
        }
        return _setpoint;
    }
    virtual double setpoint(double v) { return ThermalPower::setpoint(v, false); }
    virtual std::string leader() const { return _leader; }
    virtual std::string leader(std::string v, bool skip)
    {
        if (_leader != v)
        {
            _leader = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::debug::pid::ThermalPower::interface, "Leader");
        }
        return _leader;
    }
    virtual std::string leader(std::string v) { return ThermalPower::leader(v, false); }
    virtual double input() const { return _input; }
    virtual double input(double v, bool skip)
    {
        if (_input != v)
        {
            _input = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::debug::pid::ThermalPower::interface, "Input");
        }
        return _input;
    }
    virtual double input(double v) { return ThermalPower::input(v, false); }
    virtual double output() const { return _output; }
    virtual double output(double v, bool skip)
    {
        if (_output != v)
        {
            _output = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::debug::pid::ThermalPower::interface, "Output");
        }
        return _output;
    }
    virtual double output(double v) { return ThermalPower::output(v, false); }
    std::string simInterface() const override { return sdbusplus::common::xyz::openbmc_project::debug::pid::ThermalPower::interface; }
    bool simGet(const std::string& p, simbus::Val& o) const override
    {
        if (p == "ClassType") { o = simbus::toVal(classType()); return true; }
        if (p == "Setpoint") { o = simbus::toVal(setpoint()); return true; }
        if (p == "Leader") { o = simbus::toVal(leader()); return true; }
        if (p == "Input") { o = simbus::toVal(input()); return true; }
        if (p == "Output") { o = simbus::toVal(output()); return true; }
        return false;
    }
    void simSet(const std::string& p, const simbus::Val& v) override
    {
        if (p == "ClassType") { std::string x{}; simbus::fromVal(v, x); classType(x); return; }
        if (p == "Setpoint") { double x{}; simbus::fromVal(v, x); setpoint(x); return; }
        if (p == "Leader") { std::string x{}; simbus::fromVal(v, x); leader(x); return; }
        if (p == "Input") { double x{}; simbus::fromVal(v, x); input(x); return; }
        if (p == "Output") { double x{}; simbus::fromVal(v, x); output(x); return; }
        throw sdbusplus::exception::SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownProperty", p);
    }
    std::vector<std::string> simProps() const override
    {
        return {"ClassType", "Setpoint", "Leader", "Input", "Output"};
    }
  private:
    std::shared_ptr<simbus::Bus> _bus;
    std::string _path;
    std::string _classType;
    double _setpoint = 0;
    std::string _leader;
    double _input = 0;
    double _output = 0;
};
}
