#pragma once
#include "sdbusplus/bus.hpp"

#include <boost/asio/io_context.hpp>
namespace sdbusplus::asio
{
// signals are handed to the matches by the harness, from handlers of the same
// io_context, which is what the real class does from its read loop
class connection : public sdbusplus::bus_t
{
  public:
    explicit connection(boost::asio::io_context& io) :
        bus_t(::sdbusplus::bus::new_default()), io_(io)
    {}
    connection(boost::asio::io_context& io, bus_t&& b) :
        bus_t(std::move(b)), io_(io)
    {}
    boost::asio::io_context& get_io_context() { return io_; }

  private:
    boost::asio::io_context& io_;
};
} // namespace sdbusplus::asio
