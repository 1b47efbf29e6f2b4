#pragma once
#include "simbus/simbus.hpp"

#include <systemd/sd-bus.h>

namespace sdbusplus
{
namespace bus
{
struct bus;
}
namespace message
{
class message
{
  public:
    message() = default;
    explicit message(simbus::MsgP m) : p(std::move(m)) {}
    explicit message(sd_bus_message* m) :
        p(reinterpret_cast<simbus::Msg*>(m)->shared_from_this())
    {}
    message(const message&) = default;
    message(message&&) = default;
    message& operator=(const message&) = default;
    message& operator=(message&&) = default;

    explicit operator bool() const { return bool(p); }

    template <typename... A> void append(A&&... a)
    {
        (p->body.push_back(simbus::toVal(a)), ...);
    }
    template <typename... A> void read(A&... a) { (readOne(a), ...); }
    template <typename... A> auto unpack()
    {
        if constexpr (sizeof...(A) == 1)
        {
            std::tuple<A...> t;
            readOne(std::get<0>(t));
            return std::get<0>(std::move(t));
        }
        else
        {
            std::tuple<A...> t;
            std::apply([&](auto&... e) { (readOne(e), ...); }, t);
            return t;
        }
    }
    const char* get_member() const { return p->member.c_str(); }
    const char* get_sender() const { return p->sender.c_str(); }
    const char* get_path() const { return p->path.c_str(); }
    const char* get_interface() const { return p->iface.c_str(); }
    const char* get_destination() const { return p->dest.c_str(); }
    bool is_method_error() const { return false; }
    sd_bus_message* get() const { return reinterpret_cast<sd_bus_message*>(p.get()); }
    simbus::MsgP sim() const { return p; }

  private:
    template <typename T> void readOne(T& x)
    {
        if (p->cursor >= p->body.size())
            simbus::badType(simbus::sigOf<T>(), "end of message");
        simbus::fromVal(p->body[p->cursor], x);
        p->cursor++;
    }
    simbus::MsgP p;
};
} // namespace message
using message_t = message::message;
} // namespace sdbusplus
