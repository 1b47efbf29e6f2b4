#pragma once
#include "xyz/openbmc_project/Control/ThermalMode/common.hpp"
#include "sdbusplus/bus.hpp"
#include "simbus/simbus.hpp"
#include <cerrno>
#include <limits>
namespace sdbusplus::xyz::openbmc_project::Control::server
{
class ThermalMode : public sdbusplus::common::xyz::openbmc_project::control::ThermalMode, public simbus::ServerIface
{
  public:
    ThermalMode(sdbusplus::bus_t& b, const char* path) : _bus(b.sim()), _path(path)
    {
        auto& slot = _bus->objects[_path];
        if (slot.contains(sdbusplus::common::xyz::openbmc_project::control::ThermalMode::interface))
            throw sdbusplus::exception::SdBusError(EEXIST, "sd_bus_add_object_vtable");
        slot[sdbusplus::common::xyz::openbmc_project::control::ThermalMode::interface] = this;
    }
    ThermalMode(const ThermalMode&) = delete;
    ThermalMode& operator=(const ThermalMode&) = delete;
    ~ThermalMode() override
    {
        auto it = _bus->objects.find(_path);
        if (it == _bus->objects.end()) return;
        auto i = it->second.find(sdbusplus::common::xyz::openbmc_project::control::ThermalMode::interface);
        if (i != it->second.end() && i->second == this) it->second.erase(i);
        if (it->second.empty()) _bus->objects.erase(it);
    }
    virtual std::vector<std::string> supported() const { return _supported; }
    virtual std::vector<std::string> supported(std::vector<std::string> v, bool skip)
    {
        if (_supported != v)
        {
            _supported = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::control::ThermalMode::interface, "Supported");
        }
        return _supported;
    }
    virtual std::vector<std::string> supported(std::vector<std::string> v) { return ThermalMode::supported(v, false); }
    virtual std::string current() const { return _current; }
    virtual std::string current(std::string v, bool skip)
    {
        if (_current != v)
        {
            _current = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::control::ThermalMode::interface, "Current");
        }
        return _current;
    }
    virtual std::string current(std::string v) { return ThermalMode::current(v, false); }
    std::string simInterface() const override { return sdbusplus::common::xyz::openbmc_project::control::ThermalMode::interface; }
    bool simGet(const std::string& p, simbus::Val& o) const override
    {
        if (p == "Supported") { o = simbus::toVal(supported()); return true; }
        if (p == "Current") { o = simbus::toVal(current()); return true; }
        return false;
    }
    void simSet(const std::string& p, const simbus::Val& v) override
    {
        if (p == "Supported") { std::vector<std::string> x{}; simbus::fromVal(v, x); supported(x); return; }
        if (p == "Current") { std::string x{}; simbus::fromVal(v, x); current(x); return; }
        throw sdbusplus::exception::SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownProperty", p);
    }
    std::vector<std::string> simProps() const override
    {
        return {"Supported", "Current"};
    }
  private:
    std::shared_ptr<simbus::Bus> _bus;
    std::string _path;
    std::vector<std::string> _supported;
    std::string _current;
};
}
