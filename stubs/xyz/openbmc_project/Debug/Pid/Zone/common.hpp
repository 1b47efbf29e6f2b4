#pragma once
#include <cstdint>
#include <string>
#include <tuple>
#include <vector>
namespace sdbusplus::common::xyz::openbmc_project::debug::pid
{
struct Zone
{
    static constexpr auto interface = "xyz.openbmc_project.Debug.Pid.Zone";
    struct property_names
    {
        static constexpr auto leader = "Leader";
    };
};
}
