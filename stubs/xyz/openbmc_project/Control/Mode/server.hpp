#pragma once
#include "xyz/openbmc_project/Control/Mode/common.hpp"
#include "sdbusplus/bus.hpp"
#include "simbus/simbus.hpp"
#include <cerrno>
#include <limits>
namespace sdbusplus::xyz::openbmc_project::Control::server
{
class Mode : public sdbusplus::common::xyz::openbmc_project::control::Mode, public simbus::ServerIface
{
  public:
    Mode(sdbusplus::bus_t& b, const char* path) : _bus(b.sim()), _path(path)
    {
        auto& slot = _bus->objects[_path];
        if (slot.contains(sdbusplus::common::xyz::openbmc_project::control::Mode::interface))
            throw sdbusplus::exception::SdBusError(EEXIST, "sd_bus_add_object_vtable");
        slot[sdbusplus::common::xyz::openbmc_project::control::Mode::interface] = this;
    }
    Mode(const Mode&) = delete;
    Mode& operator=(const Mode&) = delete;
    ~Mode() override
    {
        auto it = _bus->objects.find(_path);
        if (it == _bus->objects.end()) return;
        auto i = it->second.find(sdbusplus::common::xyz::openbmc_project::control::Mode::interface);
        if (i != it->second.end() && i->second == this) it->second.erase(i);
        if (it->second.empty()) _bus->objects.erase(it);
    }
    virtual bool manual() const { return _manual; }
    virtual bool manual(bool v, bool skip)
    {
        if (_manual != v)
        {
            _manual = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::control::Mode::interface, "Manual");
        }
        return _manual;
    }
    virtual bool manual(bool v) { return Mode::manual(v, false); }
    virtual bool failSafe() const { return _failSafe; }
    virtual bool failSafe(bool v, bool skip)
    {
        if (_failSafe != v)
        {
            _failSafe = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::control::Mode::interface, "FailSafe");
        }
        return _failSafe;
    }
    virtual bool failSafe(bool v) { return Mode::failSafe(v, false); }
    std::string simInterface() const override { return sdbusplus::common::xyz::openbmc_project::control::Mode::interface; }
    bool simGet(const std::string& p, simbus::Val& o) const override
    {
        if (p == "Manual") { o = simbus::toVal(manual()); return true; }
        if (p == "FailSafe") { o = simbus::toVal(failSafe()); return true; }
        return false;
    }
    void simSet(const std::string& p, const simbus::Val& v) override
    {
        if (p == "Manual") { bool x{}; simbus::fromVal(v, x); manual(x); return; }
        if (p == "FailSafe") throw sdbusplus::exception::SdBusError(EROFS, "org.freedesktop.DBus.Error.PropertyReadOnly", p);
        throw sdbusplus::exception::SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownProperty", p);
    }
    std::vector<std::string> simProps() const override
    {
        return {"Manual", "FailSafe"};
    }
  private:
    std::shared_ptr<simbus::Bus> _bus;
    std::string _path;
    bool _manual = false;
    bool _failSafe = false;
};
}
