#pragma once
#include <cstdint>
#include <string>
#include <tuple>
#include <vector>
namespace sdbusplus::common::xyz::openbmc_project::object
{
struct Enable
{
    static constexpr auto interface = "xyz.openbmc_project.Object.Enable";
    struct property_names
    {
        static constexpr auto enabled = "Enabled";
    };
};
}
