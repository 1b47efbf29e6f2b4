#pragma once
#include "xyz/openbmc_project/Control/FanRedundancy/common.hpp"
#include "sdbusplus/bus.hpp"
#include "simbus/simbus.hpp"
#include <cerrno>
#include <limits>
namespace sdbusplus::xyz::openbmc_project::Control::server
{
class FanRedundancy : public sdbusplus::common::xyz::openbmc_project::control::FanRedundancy, public simbus::ServerIface
{
  public:
    FanRedundancy(sdbusplus::bus_t& b, const char* path) : _bus(b.sim()), _path(path)
    {
        auto& slot = _bus->objects[_path];
        if (slot.contains(sdbusplus::common::xyz::openbmc_project::control::FanRedundancy::interface))
            throw sdbusplus::exception::SdBusError(EEXIST, "sd_bus_add_object_vtable");
        slot[sdbusplus::common::xyz::openbmc_project::control::FanRedundancy::interface] = this;
    }
    FanRedundancy(const FanRedundancy&) = delete;
    FanRedundancy& operator=(const FanRedundancy&) = delete;
    ~FanRedundancy() override
    {
        auto it = _bus->objects.find(_path);
        if (it == _bus->objects.end()) return;
        auto i = it->second.find(sdbusplus::common::xyz::openbmc_project::control::FanRedundancy::interface);
        if (i != it->second.end() && i->second == this) it->second.erase(i);
        if (it->second.empty()) _bus->objects.erase(it);
    }
    virtual std::string status() const { return _status; }
    virtual std::string status(std::string v, bool skip)
    {
        if (_status != v)
        {
            _status = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::control::FanRedundancy::interface, "Status");
        }
        return _status;
    }
    virtual std::string status(std::string v) { return FanRedundancy::status(v, false); }
    virtual uint8_t allowedFailures() const { return _allowedFailures; }
    virtual uint8_t allowedFailures(uint8_t v, bool skip)
    {
        if (_allowedFailures != v)
        {
            _allowedFailures = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::control::FanRedundancy::interface, "AllowedFailures");
        }
        return _allowedFailures;
    }
    virtual uint8_t allowedFailures(uint8_t v) { return FanRedundancy::allowedFailures(v, false); }
    virtual std::vector<std::string> collection() const { return _collection; }
    virtual std::vector<std::string> collection(std::vector<std::string> v, bool skip)
    {
        if (_collection != v)
        {
            _collection = v;
            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, sdbusplus::common::xyz::openbmc_project::control::FanRedundancy::interface, "Collection");
        }
        return _collection;
    }
    virtual std::vector<std::string> collection(std::vector<std::string> v) { return FanRedundancy::collection(v, false); }
    std::string simInterface() const override { return sdbusplus::common::xyz::openbmc_project::control::FanRedundancy::interface; }
    bool simGet(const std::string& p, simbus::Val& o) const override
    {
        if (p == "Status") { o = simbus::toVal(status()); return true; }
        if (p == "AllowedFailures") { o = simbus::toVal(allowedFailures()); return true; }
        if (p == "Collection") { o = simbus::toVal(collection()); return true; }
        return false;
    }
    void simSet(const std::string& p, const simbus::Val& v) override
    {
        if (p == "Status") { std::string x{}; simbus::fromVal(v, x); status(x); return; }
        if (p == "AllowedFailures") { uint8_t x{}; simbus::fromVal(v, x); allowedFailures(x); return; }
        if (p == "Collection") { std::vector<std::string> x{}; simbus::fromVal(v, x); collection(x); return; }
        throw sdbusplus::exception::SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownProperty", p);
    }
    std::vector<std::string> simProps() const override
    {
        return {"Status", "AllowedFailures", "Collection"};
    }
  private:
    std::shared_ptr<simbus::Bus> _bus;
    std::string _path;
    std::string _status;
    uint8_t _allowedFailures = 0;
    std::vector<std::string> _collection;
};
}
