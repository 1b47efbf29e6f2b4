#pragma once
#include <cstdint>
#include <string>
#include <tuple>
#include <vector>
namespace sdbusplus::common::xyz::openbmc_project
{
struct ObjectMapper
{
    static constexpr auto interface = "xyz.openbmc_project.ObjectMapper";
    static constexpr auto default_service = "xyz.openbmc_project.ObjectMapper";
    static constexpr auto instance_path = "/xyz/openbmc_project/object_mapper";
    struct method_names { static constexpr auto get_object = "GetObject"; static constexpr auto get_sub_tree = "GetSubTree"; static constexpr auto get_sub_tree_paths = "GetSubTreePaths"; static constexpr auto get_ancestors = "GetAncestors"; };
};
}
