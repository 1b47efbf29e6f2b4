#pragma once
#include "xyz/openbmc_project/Debug/Pid/Zone/common.hpp"
#include "sdbusplus/bus.hpp"
#include "simbus/simbus.hpp"
#include <cerrno>
#include <limits>
namespace sdbusplus::xyz::openbmc_project::Debug::Pid::server
{
class Zone : public sdbusplus::common::xyz::openbmc_project::debug::pid::Zone, public simbus::ServerIface
{
  public:
    Zone(sdbusplus::bus_t& b, const char* path) : _bus(b.sim()), _path(path)
    {
        auto& slot = _bus->objects[_path];
        if (slot.contains(sdbusplus::common::xyz::openbmc_project::debug::pid::Zone::interface))
            throw sdbusplus::exception::SdBusError(EEXIST, "sd_bus_add_object_vtable");
        slot[sdbusplus::common::xyz::openbmc_project::debug::pid::Zone::interface] = this;
    }
    Zone(const Zone&) = delete;
    Zone& operator=(const Zone&) = delete;
    ~Zone() override
    {
        auto it = _bus->objects.find(_path);
        if (it == _bus->objects.end()) return;
        auto i = it->second.find(sdbusplus::common::xyz::openbmc_project::debug::pid::Zone::interface);
        if (i != it->second.end() && i->second == this) it->second.erase(i);
        if (it->second.empty()) _bus->objects.erase(it);
    }
    virtual std::string leader() const { return _leader; }
    virtual std::string leader(std::string v, bool skip)
    {
        if (_leader != v)
        {
            _leader = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::debug::pid::Zone::interface, "Leader");
        }
        return _leader;
    }
    virtual std::string leader(std::string v) { return Zone::leader(v, false); }
    std::string simInterface() const override { return sdbusplus::common::xyz::openbmc_project::debug::pid::Zone::interface; }
    bool simGet(const std::string& p, simbus::Val& o) const override
    {
        if (p == "Leader") { o = simbus::toVal(leader()); return true; }
        return false;
    }
    void simSet(const std::string& p, const simbus::Val& v) override
    {
        if (p == "Leader") throw sdbusplus::exception::SdBusError(EROFS, "org.freedesktop.DBus.Error.PropertyReadOnly", p);
        throw sdbusplus::exception::SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownProperty", p);
    }
    std::vector<std::string> simProps() const override
    {
        return {"Leader"};
    }
  private:
    std::shared_ptr<simbus::Bus> _bus;
    std::string _path;
    std::string _leader;
};
}
