#pragma once
#include "sdbusplus/bus.hpp"
namespace sdbusplus::server
{
namespace manager
{
struct manager
{
    manager() = delete;
    manager(const manager&) = delete;
    manager& operator=(const manager&) = delete;
    manager(manager&&) = default;
    manager& operator=(manager&&) = default;
    manager(bus_t& b, const char* path) : bus(b.sim()), path(path)
    {
        bus->managers.insert(this->path);
    }
    ~manager()
    {
        if (!bus) return;
        auto it = bus->managers.find(path);
        if (it != bus->managers.end()) bus->managers.erase(it);
    }

  private:
    std::shared_ptr<simbus::Bus> bus;
    std::string path;
};
} // namespace manager
using manager_t = manager::manager;
} // namespace sdbusplus::server
