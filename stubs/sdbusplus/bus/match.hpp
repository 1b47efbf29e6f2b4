#pragma once
#include "sdbusplus/bus.hpp"
#include "sdbusplus/message.hpp"

#include <functional>
#include <string>
#include <string_view>

namespace sdbusplus
{
namespace bus::match
{
struct match
{
    match() = delete;
    match(const match&) = delete;
    match& operator=(const match&) = delete;
    match(match&&) = default;
    match& operator=(match&&) = default;
    match(bus_t& b, const char* rule, sd_bus_message_handler_t h, void* ctx) :
        m(simbus::Sim::get().addMatch(b.sim(), rule, [h, ctx](simbus::Msg& x) {
              // what is handled (not 0) is not offered to others
              x.handled = h(reinterpret_cast<sd_bus_message*>(&x), ctx, nullptr) != 0;
          }))
    {}
    match(bus_t& b, const std::string& rule, sd_bus_message_handler_t h,
          void* ctx) : match(b, rule.c_str(), h, ctx)
    {}
    using callback_t = std::function<void(message_t&)>;
    match(bus_t& b, const char* rule, callback_t cb) :
        m(simbus::Sim::get().addMatch(
            b.sim(), rule, [cb = std::move(cb)](simbus::Msg& x) {
                message_t w(reinterpret_cast<sd_bus_message*>(&x));
                cb(w);
            }))
    {}
    match(bus_t& b, const std::string& rule, callback_t cb) :
        match(b, rule.c_str(), std::move(cb))
    {}
    ~match()
    {
        if (m) simbus::Sim::get().dropMatch(m);
    }

  private:
    std::shared_ptr<simbus::Match> m;
};
using match_t = match;

namespace rules
{
using namespace std::string_literals;
namespace type
{
inline std::string signal() { return "type='signal',"; }
} // namespace type
inline std::string kv(const char* k, std::string_view v)
{
    return std::string(k) + "='" + std::string(v) + "',";
}
inline std::string sender(std::string_view s) { return kv("sender", s); }
inline std::string interface(std::string_view s) { return kv("interface", s); }
inline std::string member(std::string_view s) { return kv("member", s); }
inline std::string path(std::string_view s) { return kv("path", s); }
inline std::string path_namespace(std::string_view s) { return kv("path_namespace", s); }
inline std::string argN(size_t n, std::string_view s)
{
    return kv(("arg" + std::to_string(n)).c_str(), s);
}
inline std::string arg0namespace(std::string_view s) { return kv("arg0namespace", s); }
inline std::string argNpath(size_t n, std::string_view s)
{
    return kv(("arg" + std::to_string(n) + "path").c_str(), s);
}
inline std::string propertiesChanged(std::string_view p, std::string_view i)
{
    return type::signal() + path(p) + member("PropertiesChanged") +
           interface("org.freedesktop.DBus.Properties") + argN(0, i);
}
inline std::string propertiesChangedNamespace(std::string_view n, std::string_view i)
{
    return type::signal() + path_namespace(n) + member("PropertiesChanged") +
           interface("org.freedesktop.DBus.Properties") + arg0namespace(i);
}
inline std::string interfacesAdded()
{
    return type::signal() + member("InterfacesAdded") +
           interface("org.freedesktop.DBus.ObjectManager");
}
inline std::string interfacesAdded(std::string_view p) { return interfacesAdded() + path(p); }
inline std::string interfacesRemoved()
{
    return type::signal() + member("InterfacesRemoved") +
           interface("org.freedesktop.DBus.ObjectManager");
}
inline std::string interfacesRemoved(std::string_view p) { return interfacesRemoved() + path(p); }
inline std::string nameOwnerChanged()
{
    return type::signal() + member("NameOwnerChanged");
}
} // namespace rules
} // namespace bus::match
using match = bus::match::match;
using match_t = bus::match::match;
namespace match_rules = bus::match::rules;
} // namespace sdbusplus
