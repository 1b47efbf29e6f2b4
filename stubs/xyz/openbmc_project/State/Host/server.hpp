#pragma once
#include "xyz/openbmc_project/State/Host/common.hpp"
#include "sdbusplus/bus.hpp"
#include "simbus/simbus.hpp"
#include <cerrno>
#include <limits>
namespace sdbusplus::xyz::openbmc_project::State::server
{
class Host : public sdbusplus::common::xyz::openbmc_project::state::Host, public simbus::ServerIface
{
  public:
    Host(sdbusplus::bus_t& b, const char* path) : _bus(b.sim()), _path(path)
    {
        auto& slot = _bus->objects[_path];
        if (slot.contains(sdbusplus::common::xyz::openbmc_project::state::Host::interface))
            throw sdbusplus::exception::SdBusError(EEXIST, "sd_bus_add_object_vtable");
        slot[sdbusplus::common::xyz::openbmc_project::state::Host::interface] = this;
    }
    Host(const Host&) = delete;
    Host& operator=(const Host&) = delete;
    ~Host() override
    {
        auto it = _bus->objects.find(_path);
        if (it == _bus->objects.end()) return;
        auto i = it->second.find(sdbusplus::common::xyz::openbmc_project::state::Host::interface);
        if (i != it->second.end() && i->second == this) it->second.erase(i);
        if (it->second.empty()) _bus->objects.erase(it);
    }
    virtual std::string currentHostState() const { return _currentHostState; }
    virtual std::string currentHostState(std::string v, bool skip)
    {
        if (_currentHostState != v)
        {
            _currentHostState = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::state::Host::interface, "CurrentHostState");
        }
        return _currentHostState;
    }
    virtual std::string currentHostState(std::string v) { return Host::currentHostState(v, false); }
    virtual std::string requestedHostTransition() const { return _requestedHostTransition; }
    virtual std::string requestedHostTransition(std::string v, bool skip)
    {
        if (_requestedHostTransition != v)
        {
            _requestedHostTransition = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::state::Host::interface, "RequestedHostTransition");
        }
        return _requestedHostTransition;
    }
    virtual std::string requestedHostTransition(std::string v) { return Host::requestedHostTransition(v, false); }
    std::string simInterface() const override { return sdbusplus::common::xyz::openbmc_project::state::Host::interface; }
    bool simGet(const std::string& p, simbus::Val& o) const override
    {
        if (p == "CurrentHostState") { o = simbus::toVal(currentHostState()); return true; }
        if (p == "RequestedHostTransition") { o = simbus::toVal(requestedHostTransition()); return true; }
        return false;
    }
    void simSet(const std::string& p, const simbus::Val& v) override
    {
        if (p == "CurrentHostState") { std::string x{}; simbus::fromVal(v, x); currentHostState(x); return; }
        if (p == "RequestedHostTransition") { std::string x{}; simbus::fromVal(v, x); requestedHostTransition(x); return; }
        throw sdbusplus::exception::SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownProperty", p);
    }
    std::vector<std::string> simProps() const override
    {
        return {"CurrentHostState", "RequestedHostTransition"};
    }
  private:
    std::shared_ptr<simbus::Bus> _bus;
    std::string _path;
    std::string _currentHostState;
    std::string _requestedHostTransition;
};
}
