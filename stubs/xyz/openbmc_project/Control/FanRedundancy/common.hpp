#pragma once
#include <cstdint>
#include <string>
#include <tuple>
#include <vector>
namespace sdbusplus::common::xyz::openbmc_project::control
{
struct FanRedundancy
{
    static constexpr auto interface = "xyz.openbmc_project.Control.FanRedundancy";
    struct property_names
    {
        static constexpr auto status = "Status";
        static constexpr auto allowed_failures = "AllowedFailures";
        static constexpr auto collection = "Collection";
    };
};
}
