ID = "c14-one-band-for-both"
PROPERTY = "C14"
NEEDS = "a controller that gives a positive hysteresis and leaves the negative one out"
BREAKS = "an absent negativeHysteresis takes the value of positiveHysteresis instead of the documented 0"
EDITS = [("pid/buildjson.cpp", """        positiveHysteresis->get_to(positiveHysteresisValue);
""", """        positiveHysteresis->get_to(positiveHysteresisValue);
        negativeHysteresisValue = positiveHysteresisValue;
""")]
SRCS = ["pid/buildjson.cpp", "util.cpp"]
DEMO = r'''
#include "pid/buildjson.hpp"
#include <nlohmann/json.hpp>
#include <cstdio>
using namespace pid_control;
int main()
{
    auto j = nlohmann::json::parse(R"({"sensors":[],"zones":[{"id":1,"minThermalOutput":3000,"failsafePercent":75,"pids":[
      {"name":"t","type":"stepwise","inputs":["a"],"setpoint":30,"pid":{"samplePeriod":0.1,"isCeiling":false,"positiveHysteresis":3,"reading":{"0":20},"output":{"0":4000}}},
      {"name":"u","type":"stepwise","inputs":["a"],"setpoint":30,"pid":{"samplePeriod":0.1,"isCeiling":false,"positiveHysteresis":3,"negativeHysteresis":1,"reading":{"0":20},"output":{"0":4000}}}]}]})");
    auto [p, z] = buildPIDsFromJson(j);
    auto& a = p.at(1).at("t").stepwiseInfo; auto& b = p.at(1).at("u").stepwiseInfo;
    printf("%g %g, %g %g\n", a.positiveHysteresis, a.negativeHysteresis, b.positiveHysteresis, b.negativeHysteresis);
    return a.positiveHysteresis != 3 || a.negativeHysteresis != 0 || b.positiveHysteresis != 3 || b.negativeHysteresis != 1;
}
'''
