ID = "c11-single-precision"
PROPERTY = "C11"
NEEDS = "a duty cycle whose raw value lies just below a whole number in double precision"
BREAKS = "the raw value is computed in single precision and comes out one too high for some duty cycles"
EDITS = [("sysfs/sysfswrite.cpp", """    double minimum = getMin();
    double maximum = getMax();

    double range = maximum - minimum;
    double offset = range * value;
    double ovalue = offset + minimum;
""", """    const auto minimum = static_cast<float>(getMin());
    const auto maximum = static_cast<float>(getMax());

    const float ovalue = (maximum - minimum) * static_cast<float>(value) +
                         minimum;
""")]
SRCS = ["sysfs/sysfswrite.cpp", "sysfs/util.cpp"]
DEMO = r'''
#include "sysfs/sysfswrite.hpp"
#include <fstream>
#include <string>
#include <cstdio>
#include <filesystem>
using namespace pid_control;
int main(int, char** argv)
{
    std::string d = std::string(argv[1]) + "/sys", p = d + "/pwm1";
    std::filesystem::create_directories(d);
    std::ofstream(p) << "0";
    int bad = 0;
    SysFsWritePercent w(p, 0, 255);
    for (int i = 0; i <= 255; i++)
    {
        double v = i / 255.0 * (1 - 1e-9);
        w.write(v);
        long got = -1;
        std::ifstream(p) >> got;
        long want = long((255.0 - 0.0) * v + 0.0);
        if (got != want && !bad++) printf("%g: %ld, not %ld\n", v, got, want);
    }
    return bad != 0;
}
'''
