#pragma once
#include "xyz/openbmc_project/Sensor/Threshold/Critical/common.hpp"
#include "sdbusplus/bus.hpp"
#include "simbus/simbus.hpp"
#include <cerrno>
#include <limits>
namespace sdbusplus::xyz::openbmc_project::Sensor::Threshold::server
{
class Critical : public sdbusplus::common::xyz::openbmc_project::sensor::threshold::Critical, public simbus::ServerIface
{
  public:
    Critical(sdbusplus::bus_t& b, const char* path) : _bus(b.sim()), _path(path)
    {
        auto& slot = _bus->objects[_path];
        if (slot.contains(sdbusplus::common::xyz::openbmc_project::sensor::threshold::Critical::interface))
            throw sdbusplus::exception::SdBusError(EEXIST, "sd_bus_add_object_vtable");
        slot[sdbusplus::common::xyz::openbmc_project::sensor::threshold::Critical::interface] = this;
    }
    Critical(const Critical&) = delete;
    Critical& operator=(const Critical&) = delete;
    ~Critical() override
    {
        auto it = _bus->objects.find(_path);
        if (it == _bus->objects.end()) return;
        auto i = it->second.find(sdbusplus::common::xyz::openbmc_project::sensor::threshold::Critical::interface);
        if (i != it->second.end() && i->second == this) it->second.erase(i);
        if (it->second.empty()) _bus->objects.erase(it);
    }
    virtual double criticalHigh() const { return _criticalHigh; }
    virtual double criticalHigh(double v, bool skip)
    {
        if (_criticalHigh != v)
        {
            _criticalHigh = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::sensor::threshold::Critical::interface, "CriticalHigh");
        }
        return _criticalHigh;
    }
    virtual double criticalHigh(double v) { return Critical::criticalHigh(v, false); }
    virtual double criticalLow() const { return _criticalLow; }
    virtual double criticalLow(double v, bool skip)
    {
        if (_criticalLow != v)
        {
            _criticalLow = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::sensor::threshold::Critical::interface, "CriticalLow");
        }
        return _criticalLow;
    }
    virtual double criticalLow(double v) { return Critical::criticalLow(v, false); }
    virtual bool criticalAlarmHigh() const { return _criticalAlarmHigh; }
    virtual bool criticalAlarmHigh(bool v, bool skip)
    {
        if (_criticalAlarmHigh != v)
        {
            _criticalAlarmHigh = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::sensor::threshold::Critical::interface, "CriticalAlarmHigh");
        }
        return _criticalAlarmHigh;
    }
    virtual bool criticalAlarmHigh(bool v) { return Critical::criticalAlarmHigh(v, false); }
    virtual bool criticalAlarmLow() const { return _criticalAlarmLow; }
    virtual bool criticalAlarmLow(bool v, bool skip)
    {
        if (_criticalAlarmLow != v)
        {
            _criticalAlarmLow = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::sensor::threshold::Critical::interface, "CriticalAlarmLow");
        }
        return _criticalAlarmLow;
    }
    virtual bool criticalAlarmLow(bool v) { return Critical::criticalAlarmLow(v, false); }
    std::string simInterface() const override { return sdbusplus::common::xyz::openbmc_project::sensor::threshold::Critical::interface; }
    bool simGet(const std::string& p, simbus::Val& o) const override
    {
        if (p == "CriticalHigh") { o = simbus::toVal(criticalHigh()); return true; }
        if (p == "CriticalLow") { o = simbus::toVal(criticalLow()); return true; }
        if (p == "CriticalAlarmHigh") { o = simbus::toVal(criticalAlarmHigh()); return true; }
        if (p == "CriticalAlarmLow") { o = simbus::toVal(criticalAlarmLow()); return true; }
        return false;
    }
    void simSet(const std::string& p, const simbus::Val& v) override
    {
        if (p == "CriticalHigh") { double x{}; simbus::fromVal(v, x); criticalHigh(x); return; }
        if (p == "CriticalLow") { double x{}; simbus::fromVal(v, x); criticalLow(x); return; }
        if (p == "CriticalAlarmHigh") { bool x{}; simbus::fromVal(v, x); criticalAlarmHigh(x); return; }
        if (p == "CriticalAlarmLow") { bool x{}; simbus::fromVal(v, x); criticalAlarmLow(x); return; }
        throw sdbusplus::exception::SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownProperty", p);
    }
    std::vector<std::string> simProps() const override
    {
        return {"CriticalHigh", "CriticalLow", "CriticalAlarmHigh", "CriticalAlarmLow"};
    }
  private:
    std::shared_ptr<simbus::Bus> _bus;
    std::string _path;
    double _criticalHigh = 0;
    double _criticalLow = 0;
    bool _criticalAlarmHigh = false;
    bool _criticalAlarmLow = false;
};
}
