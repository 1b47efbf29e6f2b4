#pragma once
#include "xyz/openbmc_project/Object/Enable/common.hpp"
#include "sdbusplus/bus.hpp"
#include "simbus/simbus.hpp"
#include <cerrno>
#include <limits>
namespace sdbusplus::xyz::openbmc_project::Object::server
{
class Enable : public sdbusplus::common::xyz::openbmc_project::object::Enable, public simbus::ServerIface
{
  public:
    Enable(sdbusplus::bus_t& b, const char* path) : _bus(b.sim()), _path(path)
    {
        auto& slot = _bus->objects[_path];
        if (slot.contains(sdbusplus::common::xyz::openbmc_project::object::Enable::interface))
            throw sdbusplus::exception::SdBusError(EEXIST, "sd_bus_add_object_vtable");
        slot[sdbusplus::common::xyz::openbmc_project::object::Enable::interface] = this;
    }
    Enable(const Enable&) = delete;
    Enable& operator=(const Enable&) = delete;
    ~Enable() override
    {
        auto it = _bus->objects.find(_path);
        if (it == _bus->objects.end()) return;
        auto i = it->second.find(sdbusplus::common::xyz::openbmc_project::object::Enable::interface);
        if (i != it->second.end() && i->second == this) it->second.erase(i);
        if (it->second.empty()) _bus->objects.erase(it);
    }
    virtual bool enabled() const { return _enabled; }
    virtual bool enabled(bool v, bool skip)
    {
        if (_enabled != v)
        {
            _enabled = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::object::Enable::interface, "Enabled");
        }
        return _enabled;
    }
    virtual bool enabled(bool v) { return Enable::enabled(v, false); }
    std::string simInterface() const override { return sdbusplus::common::xyz::openbmc_project::object::Enable::interface; }
    bool simGet(const std::string& p, simbus::Val& o) const override
    {
        if (p == "Enabled") { o = simbus::toVal(enabled()); return true; }
        return false;
    }
    void simSet(const std::string& p, const simbus::Val& v) override
    {
        if (p == "Enabled") { bool x{}; simbus::fromVal(v, x); enabled(x); return; }
        throw sdbusplus::exception::SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownProperty", p);
    }
    std::vector<std::string> simProps() const override
    {
        return {"Enabled"};
    }
  private:
    std::shared_ptr<simbus::Bus> _bus;
    std::string _path;
    bool _enabled = true;
};
}
