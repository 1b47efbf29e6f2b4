ID = "c15-index-single-pass"
PROPERTY = "C15"
NEEDS = "three zones, whose indexes were taken in another order than that of their names"
BREAKS = "the search for a free zone index looks at each zone once only, so two zones may get the same index"
EDITS = [("dbus/dbusutil.cpp", """    for (;;)
    {
        bool usedIndex = false;

        // See if desired index number is free
        for (const auto& zi : zones)
        {
            if (index == zi.second)
            {
                usedIndex = true;
                break;
            }
        }

        // Increment until a free index number is found
        if (usedIndex)
        {
            ++index;
            continue;
        }

        break;
    }
""", """    // Increment until a free index number is found
    for (const auto& zi : zones)
    {
        if (index == zi.second)
        {
            ++index;
        }
    }
""")]
SRCS = ["dbus/dbusutil.cpp"]
STUBS = True
DEMO = r'''
#include "dbus/dbusutil.hpp"
#include <cstdio>
#include <set>
using namespace pid_control;
int main()
{
    int bad = 0;
    std::vector<std::vector<std::pair<const char*, int>>> runs = {
        {{"b", 0}, {"a", 1}, {"c", 0}}, {{"c", 0}, {"b", 1}, {"a", 2}, {"d", 0}}, {{"a", 0}, {"b", 1}, {"c", 0}}};
    for (auto& r : runs)
    {
        std::map<std::string, int64_t> zones;
        std::set<int64_t> got;
        for (auto& [n, i] : r) got.insert(setZoneIndex(n, zones, i));
        bad += got.size() != r.size();
        std::set<int64_t> want;
        for (size_t i = 0; i < r.size(); i++) want.insert(i);
        bad += got != want;
    }
    printf("%d wrong\n", bad);
    return bad;
}
'''
