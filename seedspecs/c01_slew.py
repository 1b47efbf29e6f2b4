ID = "c01-slew-backcalc"
PROPERTY = "C01"
NEEDS = "a controller with a slew limit that also has a feed-forward or derivative term, on a sample where the slew limit does not bind: the integral is then carried over as accumulated instead of being re-derived from the output"
BREAKS = "the integral after an unlimited sample differs from output minus proportional term, and every later output with it"
EDITS = [("pid/ec/pid.cpp", """        if (pidinfoptr->slewNeg != 0.0f || pidinfoptr->slewPos != 0.0f)
        {""", """        if (output != coreContext.output2)
        {""")]
SRCS = ["pid/ec/pid.cpp", "pid/ec/logging.cpp", "pid/tuning.cpp"]
DEMO = r'''
#include "pid/ec/pid.hpp"
#include <cmath>
#include <cstdio>
using namespace pid_control::ec;
int main()
{
    pid_info_t p{};
    p.ts = 1; p.integralCoeff = 1; p.feedFwdGain = 0.5; p.proportionalCoeff = 2;
    p.integralLimit = {-1000, 1000}; p.outLim = {-1000, 1000};
    p.slewNeg = -500; p.slewPos = 500;
    double integral = 0, last = 0; bool init = false;
    for (double in : {1.0, 3.0, 2.0, 5.0, 4.0, 4.0, 1.0})
    {
        double out = pid(&p, in, 10, nullptr);
        double err = 10 - in, prop = 2 * err;
        double i = integral + err;
        double want = prop + i + 5;
        if (init)
        {
            if (want < last - 500) want = last - 500;
            if (want > last + 500) want = last + 500;
            i = want - prop;
        }
        init = true; integral = i; last = want;
        if (std::fabs(out - want) > 1e-9) { printf("out %g want %g\n", out, want); return 1; }
    }
    return 0;
}
'''
