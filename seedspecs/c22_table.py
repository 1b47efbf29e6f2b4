ID = "c22-full-table"
PROPERTY = "C22"
NEEDS = "a stepwise table that uses all twenty points and an input at or above the last one"
BREAKS = "the search in a stepwise table looks at one point behind its end"
EDITS = [("pid/ec/stepwise.cpp", "    for (size_t ii = 1; ii < ec::maxStepwisePoints; ii++)\n", "    for (size_t ii = 1; ii <= ec::maxStepwisePoints; ii++)\n")]
SRCS = ["pid/ec/stepwise.cpp"]
DEFS = "-fsanitize=undefined,address -fno-sanitize-recover=all"
DEMO = r'''
#include "pid/ec/stepwise.hpp"
#include <cstdio>
#include <memory>
using namespace pid_control::ec;
int main()
{
    auto i = std::make_unique<StepwiseInfo>();
    for (size_t k = 0; k < maxStepwisePoints; k++) { i->reading[k] = 10.0 * k; i->output[k] = 100.0 + k; }
    double o = stepwise(*i, 1000);
    printf("%g\n", o);
    return o != 100.0 + maxStepwisePoints - 1;
}
'''
