#pragma once
#include <cstdint>
#include <string>
#include <tuple>
#include <vector>
namespace sdbusplus::common::xyz::openbmc_project::state
{
struct Host
{
    static constexpr auto interface = "xyz.openbmc_project.State.Host";
    struct property_names
    {
        static constexpr auto current_host_state = "CurrentHostState";
        static constexpr auto requested_host_transition = "RequestedHostTransition";
    };
};
}
