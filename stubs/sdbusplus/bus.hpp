#pragma once
#include "sdbusplus/exception.hpp"
#include "sdbusplus/message.hpp"
#include "simbus/simbus.hpp"

#include <cerrno>
#include <chrono>
#include <climits>
#include <optional>

namespace sdbusplus
{
namespace bus
{
struct bus
{
    bus() = delete;
    explicit bus(std::shared_ptr<simbus::Bus> b) : p(std::move(b)) {}
    bus(const bus&) = delete;
    bus& operator=(const bus&) = delete;
    bus(bus&&) = default;
    bus& operator=(bus&&) = default;
    virtual ~bus() = default;

    message_t new_method_call(const char* svc, const char* path,
                              const char* iface, const char* method)
    {
        // libsystemd refuses names that are not valid on the bus
        if (!path || path[0] != '/' || !svc || !*svc)
            throw exception::SdBusError(EINVAL, "sd_bus_message_new_method_call");
        auto m = std::make_shared<simbus::Msg>();
        m->sender = p->unique;
        m->dest = svc;
        m->path = path;
        m->iface = iface;
        m->member = method;
        return message_t(std::move(m));
    }
    message_t new_method_call(const std::string& svc, const std::string& path,
                              const std::string& iface, const std::string& method)
    {
        return new_method_call(svc.c_str(), path.c_str(), iface.c_str(), method.c_str());
    }
    message_t call(message_t& m, std::optional<std::chrono::microseconds> = {})
    {
        return message_t(simbus::Sim::get().call(*p, *m.sim()));
    }
    message_t call(message_t& m, uint64_t)
    {
        return message_t(simbus::Sim::get().call(*p, *m.sim()));
    }
    void call_noreply(message_t& m)
    {
        // sd_bus_call() without taking the reply: errors are thrown
        simbus::Sim::get().call(*p, *m.sim());
    }
    void request_name(const char* n) { p->names.insert(n); }
    std::string get_unique_name() { return p->unique; }
    std::shared_ptr<simbus::Bus> sim() const { return p; }

  protected:
    std::shared_ptr<simbus::Bus> p;
};
inline bus new_default() { return bus(simbus::Sim::get().newBus()); }
inline bus new_bus() { return new_default(); }
inline bus new_system() { return new_default(); }
inline bus new_user() { return new_default(); }
} // namespace bus
using bus_t = bus::bus;
} // namespace sdbusplus
