#pragma once
#include "xyz/openbmc_project/Sensor/Value/common.hpp"
#include "sdbusplus/bus.hpp"
#include "simbus/simbus.hpp"
#include <cerrno>
#include <limits>
namespace sdbusplus::xyz::openbmc_project::Sensor::server
{
class Value : public sdbusplus::common::xyz::openbmc_project::sensor::Value, public simbus::ServerIface
{
  public:
    using Unit = sdbusplus::common::xyz::openbmc_project::sensor::Value::Unit;
    Value(sdbusplus::bus_t& b, const char* path) : _bus(b.sim()), _path(path)
    {
        auto& slot = _bus->objects[_path];
        if (slot.contains(sdbusplus::common::xyz::openbmc_project::sensor::Value::interface))
            throw sdbusplus::exception::SdBusError(EEXIST, "sd_bus_add_object_vtable");
        slot[sdbusplus::common::xyz::openbmc_project::sensor::Value::interface] = this;
    }
    Value(const Value&) = delete;
    Value& operator=(const Value&) = delete;
    ~Value() override
    {
        auto it = _bus->objects.find(_path);
        if (it == _bus->objects.end()) return;
        auto i = it->second.find(sdbusplus::common::xyz::openbmc_project::sensor::Value::interface);
        if (i != it->second.end() && i->second == this) it->second.erase(i);
        if (it->second.empty()) _bus->objects.erase(it);
    }
    virtual double value() const { return _value; }
    virtual double value(double v, bool skip)
    {
        if (_value != v)
        {
            _value = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::sensor::Value::interface, "Value");
        }
        return _value;
    }
    virtual double value(double v) { return Value::value(v, false); }
    virtual double maxValue() const { return _maxValue; }
    virtual double maxValue(double v, bool skip)
    {
        if (_maxValue != v)
        {
            _maxValue = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::sensor::Value::interface, "MaxValue");
        }
        return _maxValue;
    }
    virtual double maxValue(double v) { return Value::maxValue(v, false); }
    virtual double minValue() const { return _minValue; }
    virtual double minValue(double v, bool skip)
    {
        if (_minValue != v)
        {
            _minValue = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::sensor::Value::interface, "MinValue");
        }
        return _minValue;
    }
    virtual double minValue(double v) { return Value::minValue(v, false); }
    virtual Unit unit() const { return _unit; }
    virtual Unit unit(Unit v, bool skip)
    {
        if (_unit != v)
        {
            _unit = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::sensor::Value::interface, "Unit");
        }
        return _unit;
    }
    virtual Unit unit(Unit v) { return Value::unit(v, false); }
    std::string simInterface() const override { return sdbusplus::common::xyz::openbmc_project::sensor::Value::interface; }
    bool simGet(const std::string& p, simbus::Val& o) const override
    {
        if (p == "Value") { o = simbus::toVal(value()); return true; }
        if (p == "MaxValue") { o = simbus::toVal(maxValue()); return true; }
        if (p == "MinValue") { o = simbus::toVal(minValue()); return true; }
        if (p == "Unit") { o = simbus::toVal(std::string("xyz.openbmc_project.Sensor.Value.Unit.DegreesC")); return true; }
        return false;
    }
    void simSet(const std::string& p, const simbus::Val& v) override
    {
        if (p == "Value") { double x{}; simbus::fromVal(v, x); value(x); return; }
        if (p == "MaxValue") { double x{}; simbus::fromVal(v, x); maxValue(x); return; }
        if (p == "MinValue") { double x{}; simbus::fromVal(v, x); minValue(x); return; }
        throw sdbusplus::exception::SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownProperty", p);
    }
    std::vector<std::string> simProps() const override
    {
        return {"Value", "MaxValue", "MinValue", "Unit"};
    }
  private:
    std::shared_ptr<simbus::Bus> _bus;
    std::string _path;
    double _value = 0;
    double _maxValue = std::numeric_limits<double>::infinity();
    double _minValue = -std::numeric_limits<double>::infinity();
    Unit _unit = Unit::DegreesC;
};
}
