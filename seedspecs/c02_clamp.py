ID = "c02-integral-after-slew"
PROPERTY = "C02"
NEEDS = "a configured slew limit and an output far from the proportional term, so that the integral re-derived from the limited output exceeds its range"
BREAKS = "the accumulated integral leaves its configured range: the controller winds up beyond it"
EDITS = [("pid/ec/pid.cpp", """    // Clamp again because having limited the output may result in a
    // larger integral term
    integralTerm = clamp(integralTerm, pidinfoptr->integralLimit.min,
                         pidinfoptr->integralLimit.max);
    pidinfoptr->integral = integralTerm;""", """    // Clamp again because having limited the output may result in a
    // larger integral term
    if (pidinfoptr->slewNeg == 0.0f || output >= pidinfoptr->lastOutput)
    {
        integralTerm = clamp(integralTerm, pidinfoptr->integralLimit.min,
                             pidinfoptr->integralLimit.max);
    }
    pidinfoptr->integral = integralTerm;""")]
SRCS = ["pid/ec/pid.cpp", "pid/ec/logging.cpp", "pid/tuning.cpp"]
DEMO = r'''
#include "pid/ec/pid.hpp"
#include <cstdio>
using namespace pid_control::ec;
int main()
{
    pid_info_t p{};
    p.ts = 1; p.integralCoeff = 0.1; p.proportionalCoeff = -1;
    p.integralLimit = {-10, 10}; p.outLim = {0, 100};
    p.slewNeg = -2; p.slewPos = 50;
    for (double in : {90.0, 95.0, 99.0, 20.0, 10.0, 5.0, 5.0, 5.0, 90.0})
    {
        pid(&p, in, 0, nullptr);
        if (p.integral < -10 || p.integral > 10) { printf("integral %g\n", p.integral); return 1; }
    }
    return 0;
}
'''
