#pragma once
#include "ipmid/api-types.hpp"
#include "ipmid/iana.hpp"

#include <functional>
#include <map>
#include <utility>
namespace oem
{
using Handler = std::function<ipmi::Cc(uint8_t cmd, const uint8_t* req,
                                       uint8_t* reply, size_t* dataLen)>;
class Router
{
  public:
    void registerHandler(Number oen, uint8_t cmd, Handler h)
    {
        handlers[{oen, cmd}] = std::move(h);
    }
    std::map<std::pair<Number, uint8_t>, Handler> handlers;
};
inline Router* mutableRouter()
{
    static Router r;
    return &r;
}
} // namespace oem
