#pragma once
#include "xyz/openbmc_project/Control/FanPwm/common.hpp"
#include "sdbusplus/bus.hpp"
#include "simbus/simbus.hpp"
#include <cerrno>
#include <limits>
namespace sdbusplus::xyz::openbmc_project::Control::server
{
class FanPwm : public sdbusplus::common::xyz::openbmc_project::control::FanPwm, public simbus::ServerIface
{
  public:
    FanPwm(sdbusplus::bus_t& b, const char* path) : _bus(b.sim()), _path(path)
    {
        auto& slot = _bus->objects[_path];
        if (slot.contains(sdbusplus::common::xyz::openbmc_project::control::FanPwm::interface))
            throw sdbusplus::exception::SdBusError(EEXIST, "sd_bus_add_object_vtable");
        slot[sdbusplus::common::xyz::openbmc_project::control::FanPwm::interface] = this;
    }
    FanPwm(const FanPwm&) = delete;
    FanPwm& operator=(const FanPwm&) = delete;
    ~FanPwm() override
    {
        auto it = _bus->objects.find(_path);
        if (it == _bus->objects.end()) return;
        auto i = it->second.find(sdbusplus::common::xyz::openbmc_project::control::FanPwm::interface);
        if (i != it->second.end() && i->second == this) it->second.erase(i);
        if (it->second.empty()) _bus->objects.erase(it);
    }
    virtual uint64_t target() const { return _target; }
    virtual uint64_t target(uint64_t v, bool skip)
    {
        if (_target != v)
        {
            _target = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::control::FanPwm::interface, "Target");
        }
        return _target;
    }
    virtual uint64_t target(uint64_t v) { return FanPwm::target(v, false); }
    std::string simInterface() const override { return sdbusplus::common::xyz::openbmc_project::control::FanPwm::interface; }
    bool simGet(const std::string& p, simbus::Val& o) const override
    {
        if (p == "Target") { o = simbus::toVal(target()); return true; }
        return false;
    }
    void simSet(const std::string& p, const simbus::Val& v) override
    {
        if (p == "Target") { uint64_t x{}; simbus::fromVal(v, x); target(x); return; }
        throw sdbusplus::exception::SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownProperty", p);
    }
    std::vector<std::string> simProps() const override
    {
        return {"Target"};
    }
  private:
    std::shared_ptr<simbus::Bus> _bus;
    std::string _path;
    uint64_t _target = 0;
};
}
