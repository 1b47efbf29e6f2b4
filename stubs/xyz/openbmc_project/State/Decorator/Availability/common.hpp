#pragma once
#include <cstdint>
#include <string>
#include <tuple>
#include <vector>
namespace sdbusplus::common::xyz::openbmc_project::state::decorator
{
struct Availability
{
    static constexpr auto interface = "xyz.openbmc_project.State.Decorator.Availability";
    struct property_names
    {
        static constexpr auto available = "Available";
    };
};
}
