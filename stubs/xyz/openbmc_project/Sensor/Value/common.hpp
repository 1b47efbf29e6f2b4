#pragma once
#include <cstdint>
#include <string>
#include <tuple>
#include <vector>
namespace sdbusplus::common::xyz::openbmc_project::sensor
{
struct Value
{
    static constexpr auto interface = "xyz.openbmc_project.Sensor.Value";
    enum class Unit { Amperes, CFM, DegreesC, Hertz, Joules, Liters, Meters, Percent, PercentRH, Pascals, RPMS, Volts, Watts };
    struct property_names
    {
        static constexpr auto value = "Value";
        static constexpr auto max_value = "MaxValue";
        static constexpr auto min_value = "MinValue";
        static constexpr auto unit = "Unit";
    };
};
}
