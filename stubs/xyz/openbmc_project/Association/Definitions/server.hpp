#pragma once
#include "xyz/openbmc_project/Association/Definitions/common.hpp"
#include "sdbusplus/bus.hpp"
#include "simbus/simbus.hpp"
#include <cerrno>
#include <limits>
namespace sdbusplus::xyz::openbmc_project::Association::server
{
class Definitions : public sdbusplus::common::xyz::openbmc_project::association::Definitions, public simbus::ServerIface
{
  public:
    Definitions(sdbusplus::bus_t& b, const char* path) : _bus(b.sim()), _path(path)
    {
        auto& slot = _bus->objects[_path];
        if (slot.contains(sdbusplus::common::xyz::openbmc_project::association::Definitions::interface))
            throw sdbusplus::exception::SdBusError(EEXIST, "sd_bus_add_object_vtable");
        slot[sdbusplus::common::xyz::openbmc_project::association::Definitions::interface] = this;
    }
    Definitions(const Definitions&) = delete;
    Definitions& operator=(const Definitions&) = delete;
    ~Definitions() override
    {
        auto it = _bus->objects.find(_path);
        if (it == _bus->objects.end()) return;
        auto i = it->second.find(sdbusplus::common::xyz::openbmc_project::association::Definitions::interface);
        if (i != it->second.end() && i->second == this) it->second.erase(i);
        if (it->second.empty()) _bus->objects.erase(it);
    }
    virtual std::vector<std::tuple<std::string,std::string,std::string>> associations() const { return _associations; }
    virtual std::vector<std::tuple<std::string,std::string,std::string>> associations(std::vector<std::tuple<std::string,std::string,std::string>> v, bool skip)
    {
        if (_associations != v)
        {
            _associations = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::association::Definitions::interface, "Associations");
        }
        return _associations;
    }
    virtual std::vector<std::tuple<std::string,std::string,std::string>> associations(std::vector<std::tuple<std::string,std::string,std::string>> v) { return Definitions::associations(v, false); }
    std::string simInterface() const override { return sdbusplus::common::xyz::openbmc_project::association::Definitions::interface; }
    bool simGet(const std::string& p, simbus::Val& o) const override
    {
        if (p == "Associations") { o = simbus::toVal(associations()); return true; }
        return false;
    }
    void simSet(const std::string& p, const simbus::Val& v) override
    {
        if (p == "Associations") { std::vector<std::tuple<std::string,std::string,std::string>> x{}; simbus::fromVal(v, x); associations(x); return; }
        throw sdbusplus::exception::SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownProperty", p);
    }
    std::vector<std::string> simProps() const override
    {
        return {"Associations"};
    }
  private:
    std::shared_ptr<simbus::Bus> _bus;
    std::string _path;
    std::vector<std::tuple<std::string,std::string,std::string>> _associations;
};
}
