#pragma once
#include "sdbusplus/bus.hpp"

namespace sdbusplus::server
{
namespace object
{
template <class... Args>
class object : public Args...
{
  public:
    enum class action
    {
        emit_object_added,
        emit_interface_added,
        defer_emit,
        emit_no_signals,
    };
    object() = delete;
    object(const object&) = delete;
    object& operator=(const object&) = delete;
    object(object&&) = delete;
    object& operator=(object&&) = delete;
    object(bus_t& bus, const char* path,
           action act = action::emit_object_added) : Args(bus, path)...
    {
        if (act == action::emit_object_added) emit_object_added();
    }
    ~object() override = default;
    void emit_object_added() {}
};
} // namespace object
template <class... Args> using object_t = object::object<Args...>;
} // namespace sdbusplus::server
