#pragma once
#include <cstdint>
#include <string>
#include <tuple>
#include <vector>
namespace sdbusplus::common::xyz::openbmc_project::control
{
struct ThermalMode
{
    static constexpr auto interface = "xyz.openbmc_project.Control.ThermalMode";
    struct property_names
    {
        static constexpr auto supported = "Supported";
        static constexpr auto current = "Current";
    };
};
}
