#pragma once
#include "xyz/openbmc_project/State/Decorator/OperationalStatus/common.hpp"
#include "sdbusplus/bus.hpp"
#include "simbus/simbus.hpp"
#include <cerrno>
#include <limits>
namespace sdbusplus::xyz::openbmc_project::State::Decorator::server
{
class OperationalStatus : public sdbusplus::common::xyz::openbmc_project::state::decorator::OperationalStatus, public simbus::ServerIface
{
  public:
    OperationalStatus(sdbusplus::bus_t& b, const char* path) : _bus(b.sim()), _path(path)
    {
        auto& slot = _bus->objects[_path];
        if (slot.contains(sdbusplus::common::xyz::openbmc_project::state::decorator::OperationalStatus::interface))
            throw sdbusplus::exception::SdBusError(EEXIST, "sd_bus_add_object_vtable");
        slot[sdbusplus::common::xyz::openbmc_project::state::decorator::OperationalStatus::interface] = this;
    }
    OperationalStatus(const OperationalStatus&) = delete;
    OperationalStatus& operator=(const OperationalStatus&) = delete;
    ~OperationalStatus() override
    {
        auto it = _bus->objects.find(_path);
        if (it == _bus->objects.end()) return;
        auto i = it->second.find(sdbusplus::common::xyz::openbmc_project::state::decorator::OperationalStatus::interface);
        if (i != it->second.end() && i->second == this) it->second.erase(i);
        if (it->second.empty()) _bus->objects.erase(it);
    }
    virtual bool functional() const { return _functional; }
    virtual bool functional(bool v, bool skip)
    {
        if (_functional != v)
        {
            _functional = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::state::decorator::OperationalStatus::interface, "Functional");
        }
        return _functional;
    }
    virtual bool functional(bool v) { return OperationalStatus::functional(v, false); }
    std::string simInterface() const override { return sdbusplus::common::xyz::openbmc_project::state::decorator::OperationalStatus::interface; }
    bool simGet(const std::string& p, simbus::Val& o) const override
    {
        if (p == "Functional") { o = simbus::toVal(functional()); return true; }
        return false;
    }
    void simSet(const std::string& p, const simbus::Val& v) override
    {
        if (p == "Functional") { bool x{}; simbus::fromVal(v, x); functional(x); return; }
        throw sdbusplus::exception::SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownProperty", p);
    }
    std::vector<std::string> simProps() const override
    {
        return {"Functional"};
    }
  private:
    std::shared_ptr<simbus::Bus> _bus;
    std::string _path;
    bool _functional = false;
};
}
