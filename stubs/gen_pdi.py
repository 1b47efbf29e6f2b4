#!/usr/bin/env python3
"""Writes the stand-ins for the phosphor-dbus-interfaces headers next to this file."""
import os, re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "xyz/openbmc_project")
# path: (common ns, extra members, [(Prop, type, writable)], enums)
I = {
 "Sensor/Value": [("Value","double",1),("MaxValue","double",1),("MinValue","double",1),("Unit","Unit",1)],
 "Sensor/Threshold/Critical": [("CriticalHigh","double",1),("CriticalLow","double",1),("CriticalAlarmHigh","bool",1),("CriticalAlarmLow","bool",1)],
 "Sensor/Threshold/Warning": [("WarningHigh","double",1),("WarningLow","double",1),("WarningAlarmHigh","bool",1),("WarningAlarmLow","bool",1)],
 "State/Decorator/Availability": [("Available","bool",1)],
 "State/Decorator/OperationalStatus": [("Functional","bool",1)],
 "State/Host": [("CurrentHostState","std::string",1),("RequestedHostTransition","std::string",1)],
 "Control/FanPwm": [("Target","uint64_t",1)],
 "Control/FanRedundancy": [("Status","std::string",1),("AllowedFailures","uint8_t",1),("Collection","std::vector<std::string>",1)],
 "Control/Mode": [("Manual","bool",1),("FailSafe","bool",0)],
 "Control/ThermalMode": [("Supported","std::vector<std::string>",1),("Current","std::string",1)],
 "Debug/Pid/Zone": [("Leader","std::string",0)],
 "Debug/Pid/ThermalPower": [("ClassType","std::string",1),("Setpoint","double",1),("Leader","std::string",1),("Input","double",1),("Output","double",1)],
 "Object/Enable": [("Enabled","bool",1)],
 "ObjectMapper": [],
 "Association": [],
 "Association/Definitions": [("Associations","std::vector<std::tuple<std::string,std::string,std::string>>",1)],
}
def snake(n): return re.sub(r"(?<!^)([A-Z])", r"_\1", n).lower()
def camel(n): return n[0].lower()+n[1:]
def lower_seg(s): return snake(s)
for path, props in I.items():
    segs = path.split("/")
    d = os.path.join(root, path); os.makedirs(d, exist_ok=True)
    ns = "sdbusplus::common::xyz::openbmc_project" + "".join("::"+lower_seg(s) for s in segs[:-1])
    # namespaces such as control, sensor::threshold are plain lower case
    cls = segs[-1]
    iface = "xyz.openbmc_project." + path.replace("/", ".")
    o = ["#pragma once","#include <cstdint>","#include <string>","#include <tuple>","#include <vector>", f"namespace {ns}","{", f"struct {cls}", "{",
         f'    static constexpr auto interface = "{iface}";']
    if path == "Sensor/Value":
        o += ["    enum class Unit { Amperes, CFM, DegreesC, Hertz, Joules, Liters, Meters, Percent, PercentRH, Pascals, RPMS, Volts, Watts };"]
    if path == "ObjectMapper":
        o += ['    static constexpr auto default_service = "xyz.openbmc_project.ObjectMapper";',
              '    static constexpr auto instance_path = "/xyz/openbmc_project/object_mapper";',
              "    struct method_names { static constexpr auto get_object = \"GetObject\"; static constexpr auto get_sub_tree = \"GetSubTree\"; static constexpr auto get_sub_tree_paths = \"GetSubTreePaths\"; static constexpr auto get_ancestors = \"GetAncestors\"; };"]
    if props:
        o += ["    struct property_names", "    {"] + [f'        static constexpr auto {snake(p)} = "{p}";' for p,_,_ in props] + ["    };"]
    o += ["};","}"]
    open(os.path.join(d,"common.hpp"),"w").write("\n".join(o)+"\n")
    open(os.path.join(d,"client.hpp"),"w").write(f'#pragma once\n#include "xyz/openbmc_project/{path}/common.hpp"\n')
    if not props: continue
    sns = "sdbusplus::xyz::openbmc_project" + "".join("::"+s for s in segs[:-1]) + "::server"
    full = f"{ns}::{cls}"
    o = ["#pragma once",f'#include "xyz/openbmc_project/{path}/common.hpp"','#include "sdbusplus/bus.hpp"','#include "simbus/simbus.hpp"',"#include <cerrno>","#include <limits>"]
    o += [f"namespace {sns}","{",f"class {cls} : public {full}, public simbus::ServerIface","{","  public:"]
    if path=="Sensor/Value": o += [f"    using Unit = {full}::Unit;"]
    o += [f"    {cls}(sdbusplus::bus_t& b, const char* path) : _bus(b.sim()), _path(path)",
          "    {",
          "        auto& slot = _bus->objects[_path];",
          f"        if (slot.contains({full}::interface))",
          '            throw sdbusplus::exception::SdBusError(EEXIST, "sd_bus_add_object_vtable");',
          f"        slot[{full}::interface] = this;",
          "    }",
          f"    {cls}(const {cls}&) = delete;", f"    {cls}& operator=(const {cls}&) = delete;",
          f"    ~{cls}() override","    {",
          "        auto it = _bus->objects.find(_path);",
          "        if (it == _bus->objects.end()) return;",
          f"        auto i = it->second.find({full}::interface);",
          "        if (i != it->second.end() && i->second == this) it->second.erase(i);",
          "        if (it->second.empty()) _bus->objects.erase(it);",
          "    }"]
    for p,t,w in props:
        c = camel(p)
        o += [f"    virtual {t} {c}() const {{ return _{c}; }}",
              f"    virtual {t} {c}({t} v, bool skip)","    {",
              f"        if (_{c} != v)","        {",f"            _{c} = v;",
              f'            if (!skip && simbus::Sim::get().onOwnChange) simbus::Sim::get().onOwnChange(_path, {full}::interface, "{p}");',
              "        }",f"        return _{c};","    }",
              f"    virtual {t} {c}({t} v) {{ return {cls}::{c}(v, false); }}"]
    o += [f"    std::string simInterface() const override {{ return {full}::interface; }}",
          "    bool simGet(const std::string& p, simbus::Val& o) const override","    {"]
    for p,t,w in props:
        if t=="Unit": o += [f'        if (p == "{p}") {{ o = simbus::toVal(std::string("xyz.openbmc_project.Sensor.Value.Unit.DegreesC")); return true; }}']
        else: o += [f'        if (p == "{p}") {{ o = simbus::toVal({camel(p)}()); return true; }}']
    o += ["        return false;","    }","    void simSet(const std::string& p, const simbus::Val& v) override","    {"]
    for p,t,w in props:
        if t=="Unit": continue
        if w: o += [f'        if (p == "{p}") {{ {t} x{{}}; simbus::fromVal(v, x); {camel(p)}(x); return; }}']
        else: o += [f'        if (p == "{p}") throw sdbusplus::exception::SdBusError(EROFS, "org.freedesktop.DBus.Error.PropertyReadOnly", p);']
    o += ['        throw sdbusplus::exception::SdBusError(EBADR, "org.freedesktop.DBus.Error.UnknownProperty", p);',"    }",
          "    std::vector<std::string> simProps() const override","    {",
          "        return {" + ", ".join(f'"{p}"' for p,_,_ in props) + "};","    }",
          "  private:","    std::shared_ptr<simbus::Bus> _bus;","    std::string _path;"]
    for p,t,w in props:
        init = ""
        if t=="bool": init = " = true" if p=="Enabled" else " = false"
        elif t=="double": init = " = 0" if p not in ("MaxValue","MinValue") else (" = std::numeric_limits<double>::infinity()" if p=="MaxValue" else " = -std::numeric_limits<double>::infinity()")
        elif t=="Unit": init = " = Unit::DegreesC"
        elif t in("uint64_t","uint8_t"): init=" = 0"
        o += [f"    {t} _{camel(p)}{init};"]
    o += ["};","}"]
    open(os.path.join(d,"server.hpp"),"w").write("\n".join(o)+"\n")
