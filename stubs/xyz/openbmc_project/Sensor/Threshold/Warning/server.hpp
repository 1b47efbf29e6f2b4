#pragma once
#include "xyz/openbmc_project/Sensor/Threshold/Warning/common.hpp"
#include "sdbusplus/bus.hpp"
#include "simbus/simbus.hpp"
#include <cerrno>
#include <limits>
namespace sdbusplus::xyz::openbmc_project::Sensor::Threshold::server
{
class Warning : public sdbusplus::common::xyz::openbmc_project::sensor::threshold::Warning, public simbus::ServerIface
{
  public:
    Warning(sdbusplus::bus_t& b, const char* path) : _bus(b.sim()), _path(path)
    {
        auto& slot = _bus->objects[_path];
        if (slot.contains(sdbusplus::common::xyz::openbmc_project::sensor::threshold::Warning::interface))
            throw sdbusplus::exception::SdBusError(EEXIST, "sd_bus_add_object_vtable");
        slot[sdbusplus::common::xyz::openbmc_project::sensor::threshold::Warning::interface] = this;
    }
    Warning(const Warning&) = delete;
    Warning& operator=(const Warning&) = delete;
    ~Warning() override
    {
        auto it = _bus->objects.find(_path);
        if (it == _bus->objects.end()) return;
        auto i = it->second.find(sdbusplus::common::xyz::openbmc_project::sensor::threshold::Warning::interface);
        if (i != it->second.end() && i->second == this) it->second.erase(i);
        if (it->second.empty()) _bus->objects.erase(it);
    }
    virtual double warningHigh() const { return _warningHigh; }
    virtual double warningHigh(double v, bool skip)
    {
        if (_warningHigh != v)
        {
            _warningHigh = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::sensor::threshold::Warning::interface, "WarningHigh");
        }
        return _warningHigh;
    }
    virtual double warningHigh(double v) { return Warning::warningHigh(v, false); }
    virtual double warningLow() const { return _warningLow; }
    virtual double warningLow(double v, bool skip)
    {
        if (_warningLow != v)
        {
            _warningLow = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::sensor::threshold::Warning::interface, "WarningLow");
        }
        return _warningLow;
    }
    virtual double warningLow(double v) { return Warning::warningLow(v, false); }
    virtual bool warningAlarmHigh() const { return _warningAlarmHigh; }
    virtual bool warningAlarmHigh(bool v, bool skip)
    {
        if (_warningAlarmHigh != v)
        {
            _warningAlarmHigh = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::sensor::threshold::Warning::interface, "WarningAlarmHigh");
        }
        return _warningAlarmHigh;
    }
    virtual bool warningAlarmHigh(bool v) { return Warning::warningAlarmHigh(v, false); }
    virtual bool warningAlarmLow() const { return _warningAlarmLow; }
    virtual bool warningAlarmLow(bool v, bool skip)
    {
        if (_warningAlarmLow != v)
        {
            _warningAlarmLow = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::sensor::threshold::Warning::interface, "WarningAlarmLow");
        }
        return _warningAlarmLow;
    }
    virtual bool warningAlarmLow(bool v) { return Warning::warningAlarmLow(v, false); }
    std::string simInterface() const override { return sdbusplus::common::xyz::openbmc_project::sensor::threshold::Warning::interface; }
    bool simGet(const std::string& p, simbus::Val& o) const override
    {
        if (p == "WarningHigh") { o = simbus::toVal(warningHigh()); return true; }
        if (p == "WarningLow") { o = simbus::toVal(warningLow()); return true; }
        if (p == "WarningAlarmHigh") { o = simbus::toVal(warningAlarmHigh()); return true; }
        if (p == "WarningAlarmLow") { o = simbus::toVal(warningAlarmLow()); return true; }
        return false;
    }
    void simSet(const std::string& p, const simbus::Val& v) override
    {
        if (p == "WarningHigh") { double x{}; simbus::fromVal(v, x); warningHigh(x); return; }
        if (p == "WarningLow") { double x{}; simbus::fromVal(v, x); warningLow(x); return; }
        if (p == "WarningAlarmHigh") { bool x{}; simbus::fromVal(v, x); warningAlarmHigh(x); return; }
        if (p == "WarningAlarmLow") { bool x{}; simbus::fromVal(v, x); warningAlarmLow(x); return; }
        throw sdbusplus::exception::SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownProperty", p);
    }
    std::vector<std::string> simProps() const override
    {
        return {"WarningHigh", "WarningLow", "WarningAlarmHigh", "WarningAlarmLow"};
    }
  private:
    std::shared_ptr<simbus::Bus> _bus;
    std::string _path;
    double _warningHigh = 0;
    double _warningLow = 0;
    bool _warningAlarmHigh = false;
    bool _warningAlarmLow = false;
};
}
