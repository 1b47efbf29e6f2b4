#pragma once
#include <cstdint>
#include <string>
#include <tuple>
#include <vector>
namespace sdbusplus::common::xyz::openbmc_project
{
struct Association
{
    static constexpr auto interface = "xyz.openbmc_project.Association";
};
}
