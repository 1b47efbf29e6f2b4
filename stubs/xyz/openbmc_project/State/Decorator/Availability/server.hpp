#pragma once
#include "xyz/openbmc_project/State/Decorator/Availability/common.hpp"
#include "sdbusplus/bus.hpp"
#include "simbus/simbus.hpp"
#include <cerrno>
#include <limits>
namespace sdbusplus::xyz::openbmc_project::State::Decorator::server
{
class Availability : public sdbusplus::common::xyz::openbmc_project::state::decorator::Availability, public simbus::ServerIface
{
  public:
    Availability(sdbusplus::bus_t& b, const char* path) : _bus(b.sim()), _path(path)
    {
        auto& slot = _bus->objects[_path];
        if (slot.contains(sdbusplus::common::xyz::openbmc_project::state::decorator::Availability::interface))
            throw sdbusplus::exception::SdBusError(EEXIST, "sd_bus_add_object_vtable");
        slot[sdbusplus::common::xyz::openbmc_project::state::decorator::Availability::interface] = this;
    }
    Availability(const Availability&) = delete;
    Availability& operator=(const Availability&) = delete;
    ~Availability() override
    {
        auto it = _bus->objects.find(_path);
        if (it == _bus->objects.end()) return;
        auto i = it->second.find(sdbusplus::common::xyz::openbmc_project::state::decorator::Availability::interface);
        if (i != it->second.end() && i->second == this) it->second.erase(i);
        if (it->second.empty()) _bus->objects.erase(it);
    }
    virtual bool available() const { return _available; }
    virtual bool available(bool v, bool skip)
    {
        if (_available != v)
        {
            _available = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::state::decorator::Availability::interface, "Available");
        }
        return _available;
    }
    virtual bool available(bool v) { return Availability::available(v, false); }
    std::string simInterface() const override { return sdbusplus::common::xyz::openbmc_project::state::decorator::Availability::interface; }
    bool simGet(const std::string& p, simbus::Val& o) const override
    {
        if (p == "Available") { o = simbus::toVal(available()); return true; }
        return false;
    }
    void simSet(const std::string& p, const simbus::Val& v) override
    {
        if (p == "Available") { bool x{}; simbus::fromVal(v, x); available(x); return; }
        throw sdbusplus::exception::SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownProperty", p);
    }
    std::vector<std::string> simProps() const override
    {
        return {"Available"};
    }
  private:
    std::shared_ptr<simbus::Bus> _bus;
    std::string _path;
    bool _available = false;
};
}
