// The whole daemon, judged at quiet moments: after every sensor, state and
// file was brought into a known condition and enough time has passed, what it
// shows on the bus, drives and logs has to be what the configuration says of
// these conditions.
struct Focus
{
    const char* prefix; // of the keys
    std::string kinds;  // of thermal sensors: s, d, e
    bool host = false, red = false, tuning = false, manual = false, logs = false, enable = false;
    double trouble = 0.3; // a sensor in trouble
    double bus = 0.3;   // the configuration is on the bus
    bool clock = false; // wall clock steps
    bool start = false; // configurations that are not to be used
    bool chkFs = false, chkInput = false, chkPwm = false, chkObj = false;
    std::string busTrouble = "nxfus"; // NaN, alarms, non-functional, unavailable, silent
};
struct WSensor
{
    std::string name, path, write;
    char kind = 's';
    bool fan = false, busWrite = false, unavail = true, tol = false;
    int timeout = 0;
    int64_t mn = 0, mx = 255;
    // condition
    double v = 40;
    char trouble = 0; // n: NaN, h/l/b: alarms, f: non-functional, u: unavailable, s: silent, g: no file, j: junk
    bool alarmHigh() const { return trouble == 'h' || trouble == 'b'; }
    bool alarmLow() const { return trouble == 'l' || trouble == 'b'; }
    double last = 40; // of the bus: the last finite value, or NaN
    double value() const
    {
        if (kind == 'd') return last;
        return trouble && strchr("ngj", trouble) ? vp::NaN : v;
    }
    bool valid() const { return std::isfinite(value()); }
};
struct WCtl
{
    std::string name, cls = "temp"; // temp, power, powersum, margin, step
    std::vector<std::string> in;
    std::vector<double> limit; // of inputs converted to margins
    std::vector<std::pair<double, double>> table;
    bool ceiling = false;
    double sp = 0, kp = 0, lo = 0, hi = 0;
    bool missOk = false, enabled = true;
    double fsp = 0;
};
struct WZone
{
    int id = 0;
    int64_t iv = 100, th = 1000;
    double fsp = 80, minOut = 1000;
    bool acc = false;
    std::vector<WCtl> temps;
    std::vector<std::pair<std::string, std::vector<std::string>>> fans; // controller, inputs
    std::map<std::string, double> fanFsp; // of controllers
    bool manual = false;
};

void publishOther(Platform& p, const Cfg& g) { publish(p, g); }

struct Whole
{
    Case& c;
    vp::Rng& r;
    Sim& sim;
    Platform p;
    Focus f;
    std::string d;
    std::map<std::string, WSensor> ss;
    std::vector<WZone> zones;
    bool hostOn = false, onBus = false; // onBus: the configuration
    std::map<std::string, std::pair<bool, std::set<std::string>>> groups;
    bool tuning = false, logging = false, coreLog = false, debug = false;
    std::string logDir, coreDir;
    std::set<std::string> coreNames, wrote;
    int tuneAll = -1, ver = 0;
    std::map<int, int> tuneZone;
    std::map<std::string, double> busLast;
    uint64_t failsafeSeen = 0, normalSeen = 0;

    Whole(Case& c_, const Focus& f_) : c(c_), r(c_.rng), sim(Sim::get()), p(c_), f(f_), d(c_.dir()) {}

    std::string obj(const WZone& z) { return CTRL + std::to_string(z.id); }

    // ------------------------------------------------------- configuration
    void generate()
    {
        ver++;
        ss.clear();
        zones.clear();
        wants.clear(); // a log begins anew with its zone
        std::string tag = "w" + std::to_string(ver);
        int nt = int(r.range(1, 4)), nz = int(r.range(1, 2)), nf = 0;
        std::vector<std::string> temps;
        for (int i = 0; i < nt; i++)
        {
            WSensor s;
            s.name = tag + "temp" + std::to_string(i);
            s.kind = onBus ? 'd' : f.kinds[size_t(r.range(0, int64_t(f.kinds.size()) - 1))];
            s.path = s.kind == 's' ? sysRoot + s.name + "_input" : s.kind == 'd' ? "/xyz/openbmc_project/sensors/temperature/" + s.name : "/xyz/openbmc_project/extsensors/temperature/" + s.name;
            s.timeout = onBus ? 0 : f.clock ? int(r.range(1, 3)) : r.of({0, 1, 2, 3});
            if (s.kind != 's' && f.host) s.tol = r.chance(0.6);
            if (s.kind == 'd') s.unavail = r.chance(0.6);
            if (onBus && i) s.tol = ss[temps[0]].tol, s.unavail = ss[temps[0]].unavail;
            ss[s.name] = s;
            temps.push_back(s.name);
        }
        std::vector<int> ids{0, 1, 2, 3, 4, 7, 10};
        r.shuffle(ids);
        for (int i = 0; i < nz; i++)
        {
            WZone z;
            z.id = ids[size_t(i)];
            z.iv = r.of<int64_t>({50, 100, 100, 200});
            z.th = f.clock ? 100 : r.of<int64_t>({100, 200, 500, 1000});
            z.fsp = r.coarse(30, 100, 0.5);
            z.minOut = r.coarse(500, 3000, 1);
            z.acc = r.chance(0.2);
            for (int n = int(r.range(1, 4)); n > 0; n--)
            {
                WCtl k;
                k.name = tag + "ctl" + std::to_string(i) + "x" + std::to_string(z.temps.size()) + "_" + tag + r.of({"a", "b"});
                k.cls = r.of<std::string>({"temp", "temp", "power", "powersum", "margin", "step"});
                r.shuffle(temps);
                k.in.assign(temps.begin(), temps.begin() + r.range(1, std::min<int64_t>(3, nt)));
                k.sp = r.coarse(40, 70, 0.5);
                k.kp = (k.cls == "margin" ? 1 : -1) * r.coarse(10, 200, 1);
                k.lo = r.coarse(0, 1500, 1);
                k.hi = r.coarse(2000, 9000, 1);
                if (k.cls == "margin" && r.chance(0.6))
                    for (size_t q = 0; q < k.in.size(); q++) k.limit.push_back(r.coarse(80, 120, 0.5));
                if (k.cls == "step")
                {
                    double x = r.coarse(20, 50, 0.5);
                    for (int64_t q = r.range(1, 6); q > 0; q--, x += r.coarse(1, 20, 0.5)) k.table.push_back({x, r.coarse(0, 9000, 1)});
                    k.ceiling = r.chance(0.4);
                }
                k.missOk = r.chance(0.12);
                if (r.chance(0.3)) k.fsp = r.coarse(20, 100, 0.5);
                z.temps.push_back(k);
            }
            bool together = r.chance(0.4);
            for (int k = int(r.range(1, 2)); k > 0; k--)
            {
                WSensor s;
                s.fan = true;
                s.name = tag + "fan" + std::to_string(nf);
                s.kind = onBus || f.red || r.chance(0.5) ? 'd' : 's';
                s.path = s.kind == 'd' ? "/xyz/openbmc_project/sensors/fan_tach/" + s.name : sysRoot + s.name + "_input";
                s.busWrite = onBus || r.chance(0.4);
                s.write = s.busWrite ? "/xyz/openbmc_project/control/fanpwm/" + tag + "pwm" + std::to_string(nf) : sysRoot + tag + "pwm" + std::to_string(nf);
                s.mn = onBus ? 0 : r.of<int64_t>({0, 0, 20, 1000});
                s.mx = onBus ? 255 : r.of<int64_t>({255, 255, 100, 0, 12000});
                s.timeout = onBus ? 0 : r.of({0, 0, 3});
                s.v = s.last = 3000;
                nf++;
                ss[s.name] = s;
                if (together && !z.fans.empty()) z.fans[0].second.push_back(s.name);
                else
                {
                    z.fans.push_back({tag + "fanctl" + std::to_string(nf), {s.name}});
                    if (r.chance(0.2)) z.fanFsp[z.fans.back().first] = r.coarse(20, 100, 0.5);
                }
            }
            zones.push_back(z);
        }
        std::string text = onBus ? publish() : json();
        c.log << "[" << nowMs() << " ms] configuration: " << text << "\n";
        c.sig(text);
        provide();
    }
    std::string json()
    {
        std::ostringstream j;
        j << "{\"sensors\":[";
        bool first = true;
        for (auto& [n, s] : ss)
        {
            j << (first ? "" : ",") << "{\"name\":\"" << n << "\",\"type\":\"" << (s.fan ? "fan" : "temp") << "\",\"readPath\":\"" << s.path << "\",\"writePath\":\"" << s.write << "\",\"timeout\":" << s.timeout;
            if (s.fan) j << ",\"min\":" << s.mn << ",\"max\":" << s.mx;
            if (s.tol) j << ",\"ignoreFailIfHostOff\":true";
            if (!s.unavail) j << ",\"unavailableAsFailed\":false";
            j << "}";
            first = false;
        }
        j << "],\"zones\":[";
        for (size_t i = 0; i < zones.size(); i++)
        {
            auto& z = zones[i];
            j << (i ? "," : "") << "{\"id\":" << z.id << ",\"minThermalOutput\":" << num(z.minOut) << ",\"failsafePercent\":" << num(z.fsp) << ",\"cycleIntervalTimeMS\":" << z.iv << ",\"updateThermalsTimeMS\":" << z.th << (z.acc ? ",\"accumulateSetPoint\":true" : "") << ",\"pids\":[";
            auto law = [&](double kp, double lo, double hi, double ff) {
                j << "\"pid\":{\"samplePeriod\":" << num(double(z.iv) / 1000) << ",\"proportionalCoeff\":" << num(kp) << ",\"integralCoeff\":0.0,\"feedFwdOffsetCoeff\":0.0,\"feedFwdGainCoeff\":" << num(ff)
                  << ",\"integralLimit_min\":0.0,\"integralLimit_max\":0.0,\"outLim_min\":" << num(lo) << ",\"outLim_max\":" << num(hi) << ",\"slewNeg\":0.0,\"slewPos\":0.0}}";
            };
            bool any = false;
            for (auto& [n, in] : z.fans)
            {
                j << (any ? "," : "") << "{\"name\":\"" << n << "\",\"type\":\"fan\",";
                if (z.fanFsp.count(n)) j << "\"FailSafePercent\":" << num(z.fanFsp[n]) << ",";
                j << "\"inputs\":[";
                for (size_t q = 0; q < in.size(); q++) j << (q ? ",\"" : "\"") << in[q] << "\"";
                j << "],\"setpoint\":90.0,";
                law(0.01, 5, 95, 0.01);
                any = true;
            }
            for (auto& k : z.temps)
            {
                auto list = [&](const char* key, auto& v, const char* q) {
                    j << "\"" << key << "\":[";
                    for (size_t n = 0; n < v.size(); n++) j << (n ? "," : "") << q << v[n] << q;
                    j << "],";
                };
                j << ",{\"name\":\"" << k.name << "\",\"type\":\"" << (k.cls == "step" ? "stepwise" : k.cls) << "\",";
                list("inputs", k.in, "\"");
                j << "\"setpoint\":" << num(k.sp) << ",";
                if (k.fsp > 0) j << "\"FailSafePercent\":" << num(k.fsp) << ",";
                if (k.missOk) j << "\"missingIsAcceptable\":[\"" << k.in[0] << "\"],";
                if (!k.limit.empty()) list("tempToMargin", k.limit, "");
                if (k.cls == "step")
                {
                    j << "\"pid\":{\"samplePeriod\":1.0,\"isCeiling\":" << (k.ceiling ? "true" : "false");
                    for (int w : {0, 1})
                    {
                        j << (w ? ",\"output\":{" : ",\"reading\":{");
                        for (size_t n = 0; n < k.table.size(); n++) j << (n ? "," : "") << "\"" << n << "\":" << num(w ? k.table[n].second : k.table[n].first);
                        j << "}";
                    }
                    j << "}}";
                    continue;
                }
                law(k.kp, k.lo, k.hi, 0);
            }
            j << "]}";
        }
        j << "]}";
        Quiet q;
        vp::writeFile(p.cfgFile, j.str());
        return j.str();
    }
    // the same as objects on the bus
    std::string publish()
    {
        noConfig(p);
        std::ostringstream j;
        j << "on the bus:";
        auto& o = sim.services[EM];
        o.clear();
        o["/xyz/openbmc_project/inventory"][OMIF];
        auto d = [](double v) { return toVal(v); };
        int n = 0;
        for (auto& z : zones)
        {
            std::string zn = "Zone " + std::to_string(z.id);
            auto& zp = o[INV + "/Zone_" + std::to_string(z.id)][ZONEIF];
            zp["Name"] = toVal(zn);
            zp["ZoneIndex"] = d(z.id);
            zp["FailSafePercent"] = d(z.fsp);
            zp["MinThermalOutput"] = d(z.minOut);
            zp["CycleIntervalTimeMS"] = d(double(z.iv));
            zp["UpdateThermalsTimeMS"] = d(double(z.th));
            if (z.acc) zp["AccumulateSetPoint"] = toVal(true), j << " accumulating";
            j << " zone " << z.id << " failsafe " << num(z.fsp) << " minimum " << num(z.minOut) << " " << z.iv << " ms " << z.th << " ms;";
            auto ctl = [&](const std::string& name, const std::string& cls, const std::vector<std::string>& in, double kp, double lo, double hi, double ff, double fsp) -> simbus::Props& {
                auto& c = o[INV + "/C" + std::to_string(n++)][PIDIF];
                c["Name"] = toVal(name);
                c["Class"] = toVal(cls);
                c["Inputs"] = toVal(in);
                c["Zones"] = toVal(std::vector<std::string>{zn});
                for (auto k : {"ICoefficient", "FFOffCoefficient", "SlewNeg", "SlewPos", "ILimitMin", "ILimitMax"}) c[k] = d(0);
                c["PCoefficient"] = d(kp);
                c["FFGainCoefficient"] = d(ff);
                c["OutLimitMin"] = d(lo);
                c["OutLimitMax"] = d(hi);
                if (fsp > 0) c["FailSafePercent"] = d(fsp);
                j << " " << name << " (";
                for (auto& i : in) j << " " << i;
                j << ") P " << num(kp) << " from " << num(lo) << " to " << num(hi) << (fsp > 0 ? " failsafe " + num(fsp) : "") << ";";
                return c;
            };
            for (auto& [name, in] : z.fans)
            {
                std::vector<std::string> out;
                for (auto& i : in) out.push_back(ss.at(i).write.substr(ss.at(i).write.rfind('/') + 1));
                ctl(name, "fan", in, 0.01, 5, 95, 0.01, z.fanFsp.count(name) ? z.fanFsp[name] : 0)["Outputs"] = toVal(out);
            }
            for (auto& k : z.temps)
            {
                auto& c = k.cls == "step" ? o[INV + "/S" + std::to_string(n++)][STEPIF] : ctl(k.name, k.cls, k.in, k.kp, k.lo, k.hi, 0, k.fsp);
                if (k.cls == "step")
                {
                    c["Name"] = toVal(k.name);
                    c["Class"] = toVal(std::string(k.ceiling ? "Ceiling" : "Floor"));
                    c["Inputs"] = toVal(k.in);
                    c["Zones"] = toVal(std::vector<std::string>{zn});
                    std::vector<double> x, y;
                    j << " " << k.name << (k.ceiling ? " ceiling (" : " table (");
                    for (auto& i : k.in) j << " " << i;
                    j << ")";
                    for (auto& [a, b] : k.table)
                    {
                        x.push_back(a), y.push_back(b);
                        j << " " << num(a) << ":" << num(b);
                    }
                    c["Reading"] = toVal(x);
                    c["Output"] = toVal(y);
                    k.fsp = 0; // has none there
                }
                else
                {
                    c["SetPoint"] = d(k.sp);
                    j << " " << k.cls << " at " << num(k.sp) << ";";
                }
                if (!k.limit.empty())
                {
                    c["TempToMargin"] = toVal(k.limit);
                    for (auto x : k.limit) j << " limit " << num(x);
                }
                if (k.missOk) c["MissingIsAcceptable"] = toVal(std::vector<std::string>{k.in[0]}), j << " " << k.in[0] << " may be missing;";
                // (said of the controller; here alike for all of its inputs)
                auto& s = ss.at(k.in[0]);
                if (s.tol || r.chance(0.3)) c["IgnoreFailIfHostOff"] = toVal(s.tol);
                if (!s.unavail || r.chance(0.3)) c["InputUnavailableAsFailed"] = toVal(s.unavail);
                if (s.tol) j << " host off;";
                if (!s.unavail) j << " unavailable is no failure;";
            }
        }
        return j.str();
    }
    void provide()
    {
        Quiet q;
        for (auto& [n, s] : ss)
        {
            if (s.kind == 's') vp::writeFile(s.path, s.fan ? "3000\n" : "40\n");
            if (s.fan && !s.busWrite) vp::writeFile(s.write, "7\n");
            if (s.fan && s.busWrite) sim.services["svc.Fans"][s.write][FANPWM]["Target"] = toVal(uint64_t(1));
            if (s.kind == 'd')
            {
                auto& o = sim.services[s.fan ? "svc.Fans" : "svc.Temps"][s.path];
                o[VALUE]["Value"] = toVal(s.fan ? 3000.0 : 40.0);
                o[CRIT]["CriticalAlarmHigh"] = toVal(false);
                o[CRIT]["CriticalAlarmLow"] = toVal(false);
            }
        }
        for (auto& z : zones)
            for (auto& k : z.temps)
                if (k.cls != "step") coreNames.insert(k.name);
        for (auto& z : zones)
            for (auto& k : z.fans) coreNames.insert(k.first);
        // groups are made of the fans there are now (a reload is told later)
        if (ver == 1)
            for (auto& [g, st] : groups) setGroup(g, false);
    }

    // ---------------------------------------------------------- conditions
    void setGroup(const std::string& g, bool signal)
    {
        std::vector<std::string> mem;
        auto& st = groups[g];
        st.second.clear();
        st.first = r.chance(0.5);
        for (auto& [n, s] : ss)
            if (s.fan && s.kind == 'd' && r.chance(0.5)) mem.push_back(s.path), st.second.insert(n);
        auto& o = sim.services["svc.Red"][g]["xyz.openbmc_project.Control.FanRedundancy"];
        o["Collection"] = toVal(mem);
        o["Status"] = toVal(std::string(st.first ? "xyz.openbmc_project.Control.FanRedundancy.State.Failed" : "xyz.openbmc_project.Control.FanRedundancy.State.Full"));
        c.log << "  group " << g << (st.first ? " failed:" : " not failed:");
        for (auto& n : st.second) c.log << " " << n;
        c.log << "\n";
        if (signal) sim.emitChanged("svc.Red", g, "xyz.openbmc_project.Control.FanRedundancy", {{"Status", o["Status"]}});
    }
    void apply(WSensor& s)
    {
        Quiet q;
        auto svc = s.fan ? "svc.Fans" : "svc.Temps";
        if (s.kind == 's')
        {
            if (s.trouble == 'g') fs::remove(s.path);
            else vp::writeFile(s.path, s.trouble == 'j' ? "junk\n" : std::to_string(int64_t(s.v)) + "\n");
            return;
        }
        if (s.kind == 'e')
        {
            sim.ownSet(s.path, VALUE, "Value", toVal(s.trouble == 'n' ? vp::NaN : s.v));
            return;
        }
        auto set = [&](const char* iface, std::map<std::string, simbus::Val> ch) {
            for (auto& [k, v] : ch) sim.services[svc][s.path][iface][k] = v;
            sim.emitChanged(svc, s.path, iface, ch);
        };
        set(CRIT, {{"CriticalAlarmHigh", toVal(s.alarmHigh())}, {"CriticalAlarmLow", toVal(s.alarmLow())}});
        set(OPER, {{"Functional", toVal(s.trouble != 'f')}});
        set(AVAIL, {{"Available", toVal(s.trouble != 'u')}});
        if (s.trouble == 'u') s.last = vp::NaN;
        else if (s.trouble != 'n') s.last = s.v;
        set(VALUE, {{"Value", toVal(s.trouble == 'n' || s.trouble == 'u' ? vp::NaN : s.v)}});
    }
    // what is alive keeps reporting
    int64_t lastAlive = -1000;
    void alive()
    {
        if (nowMs() - lastAlive < 400) return;
        lastAlive = nowMs();
        for (auto& [n, s] : ss)
        {
            if (s.trouble == 's') continue;
            double v = s.trouble == 'n' || s.trouble == 'u' ? vp::NaN : s.v;
            if (s.kind == 'd') sim.emitChanged(s.fan ? "svc.Fans" : "svc.Temps", s.path, VALUE, {{"Value", toVal(v)}});
            else if (s.kind == 'e') sim.ownSet(s.path, VALUE, "Value", toVal(v));
        }
    }
    bool run(int64_t T, int64_t grain = 50)
    {
        for (int64_t e = nowMs() + T; nowMs() < e;)
        {
            alive();
            if (!p.step(std::min(grain, e - nowMs()))) return false;
        }
        return true;
    }
    void host(bool on)
    {
        hostOn = on;
        auto st = toVal(std::string("xyz.openbmc_project.State.Host.HostState.") + (on ? "Running" : r.of<std::string>({"Off", "TransitioningToRunning", "Standby"})));
        sim.services["xyz.openbmc_project.State.Host0"][HOSTPATH][HOSTIF]["CurrentHostState"] = st;
        sim.emitChanged("xyz.openbmc_project.State.Host0", HOSTPATH, HOSTIF, {{"CurrentHostState", st}});
    }
    std::string tuneText(int v) { return v < 0 ? r.of<std::string>({"", "junk", "100", "-3000", "0"}) : std::to_string(v) + (r.chance(0.5) ? "\n" : ""); }
    void change()
    {
        for (auto& [n, s] : ss)
        {
            if (!r.chance(0.7)) continue;
            s.v = s.fan ? double(r.range(0, 6000)) : r.coarse(20, 90, s.kind == 's' ? 1 : 0.25);
            s.trouble = 0;
            if (r.chance(f.trouble))
            {
                if (s.kind == 's') s.trouble = r.of({'g', 'j'});
                else if (s.kind == 'e') s.trouble = r.of({'n', 'n', 's'});
                else
                {
                    s.trouble = f.busTrouble[size_t(r.range(0, int64_t(f.busTrouble.size()) - 1))];
                    if (s.trouble == 'x') s.trouble = r.of({'h', 'l', 'b'});
                }
            }
            c.count(s.trouble ? "conditions set: trouble" : "conditions set: healthy");
            apply(s);
        }
        if (f.host && r.chance(0.6)) host(!hostOn);
        if (f.red)
            for (int k = 0; k < 2; k++)
                if (r.chance(0.5)) setGroup("/xyz/openbmc_project/control/FanRedundancy/g" + std::to_string(r.range(0, 2)), true);
        if (f.tuning)
        {
            Quiet q;
            if (r.chance(0.5))
            {
                tuneAll = r.chance(0.5) ? int(r.range(101, 9000)) : -1;
                if (tuneAll < 0 && r.chance(0.5)) fs::remove(d + "/etc/setpoint");
                else vp::writeFile(d + "/etc/setpoint", tuneText(tuneAll));
            }
            for (auto& z : zones)
                if (r.chance(0.4))
                {
                    int v = r.chance(0.5) ? int(r.range(101, 9000)) : -1;
                    tuneZone[z.id] = v;
                    if (v < 0 && r.chance(0.5)) fs::remove(d + "/etc/setpoint.zone" + std::to_string(z.id));
                    else vp::writeFile(d + "/etc/setpoint.zone" + std::to_string(z.id), tuneText(v));
                }
        }
        for (auto& z : zones)
        {
            if (f.manual && r.chance(0.5))
            {
                z.manual = !z.manual;
                VP_CHECK(c, sim.ownSet(obj(z), MODE, "Manual", toVal(z.manual)), key("mode"), "zone " << z.id << " cannot be set to manual over the bus");
            }
            if (f.enable)
                for (auto& k : z.temps)
                    if (r.chance(0.3))
                    {
                        k.enabled = !k.enabled;
                        VP_CHECK(c, sim.ownSet(obj(z) + "/" + k.name, "xyz.openbmc_project.Object.Enable", "Enabled", toVal(k.enabled)), key("enable"), k.name << " cannot be enabled or disabled over the bus");
                    }
        }
        c.log << "[" << nowMs() << " ms] conditions:";
        for (auto& [n, s] : ss) c.log << " " << n << "=" << num(s.v) << (s.trouble ? std::string("(") + s.trouble + ")" : "");
        for (auto& z : zones) c.log << (z.manual ? " manual" + std::to_string(z.id) : "");
        c.log << " host " << hostOn << "\n";
    }
    std::string key(const char* k) { return std::string(f.prefix) + "-" + k; }

    // ------------------------------------------------------------ the model
    bool failing(const WSensor& s)
    {
        // no fresh value within the timeout: nothing that can be read, nothing
        // said, or nothing but NaN on the bus
        bool stale = (s.kind == 's' && s.trouble) || s.trouble == 's' || (s.kind == 'd' && (s.trouble == 'n' || s.trouble == 'u'));
        if (stale && s.timeout > 0) return true;
        bool own = false;
        if (s.kind == 'e') own = s.trouble == 'n';
        if (s.kind == 'd')
        {
            own = s.trouble && strchr("nhlbf", s.trouble);
            if (s.trouble == 'u') own = s.fan || s.unavail;
            if (s.fan)
                for (auto& [g, st] : groups) own = own || (st.first && st.second.count(s.name));
        }
        return own && !(s.tol && !hostOn);
    }
    double percent(const WZone& z)
    {
        double all = 0;
        auto of = [&](const std::string& n) {
            if (!failing(ss.at(n))) return;
            double own = 0;
            for (auto& k : z.temps)
            {
                if (k.in[0] == n && k.missOk) return;
                if (std::count(k.in.begin(), k.in.end(), n)) own = std::max(own, k.fsp);
            }
            for (auto& [name, in] : z.fans)
                if (std::count(in.begin(), in.end(), n) && z.fanFsp.count(name)) own = std::max(own, z.fanFsp.at(name));
            all = std::max(all, own > 0 ? own : z.fsp);
        };
        for (auto& k : z.temps)
            for (auto& i : k.in) of(i);
        for (auto& [name, in] : z.fans)
            for (auto& i : in) of(i);
        return all;
    }
    // acceptable when any controller says so
    bool missOk(const WZone& z, const std::string& n)
    {
        for (auto& k : z.temps)
            if (k.in[0] == n && k.missOk) return true;
        return false;
    }
    double input(const WCtl& k, std::string* lead = nullptr)
    {
        double v = 0;
        int n = 0, same = 0;
        for (size_t i = 0; i < k.in.size(); i++)
        {
            auto& s = ss.at(k.in[i]);
            if (!s.valid()) continue;
            double x = k.limit.empty() ? s.value() : k.limit[i] - s.value();
            if (n++ == 0 || (k.cls == "margin" ? x < v : x > v))
            {
                if (lead) *lead = k.in[i];
                same = 0;
            }
            else if (x == v) same++;
            v = n == 1 ? x : k.cls == "powersum" ? v + x : k.cls == "margin" ? std::min(v, x) : std::max(v, x);
        }
        if (lead && (same || k.cls == "powersum" || !n)) lead->clear(); // not said
        if (!n) return k.cls == "step" ? std::numeric_limits<double>::lowest() : k.sp;
        return v;
    }
    double output(const WCtl& k)
    {
        double v = input(k);
        if (k.cls != "step") return std::clamp(k.kp * (k.sp - v), k.lo, k.hi);
        double o = k.table[0].second;
        for (auto& [x, y] : k.table)
            if (x <= v) o = y;
        return o;
    }
    bool failsafe(const WZone& z)
    {
        for (auto& k : z.temps)
            for (auto& i : k.in)
                if (!missOk(z, i) && failing(ss.at(i))) return true;
        for (auto& [n, in] : z.fans)
            for (auto& i : in)
                if (failing(ss.at(i))) return true;
        return false;
    }
    double setPoint(const WZone& z)
    {
        double m = 0, ceil = vp::INF;
        std::map<std::string, double> sums;
        for (auto& k : z.temps)
        {
            if (!k.enabled) continue;
            if (k.ceiling) ceil = std::min(ceil, output(k));
            else sums[z.acc ? k.name.substr(k.name.find('_') + 1) : k.name] += output(k);
        }
        for (auto& [n, v] : sums) m = std::max(m, v);
        m = std::max(std::min(m, ceil), z.minOut);
        if (tuning)
        {
            if (tuneAll > 0) m = tuneAll;
            auto it = tuneZone.find(z.id);
            if (it != tuneZone.end() && it->second > 0) m = it->second;
        }
        return m;
    }
    double duty(const WZone& z, const std::vector<std::string>& in)
    {
        double rpm = 0;
        for (auto& i : in)
        {
            auto& s = ss.at(i);
            if (s.valid() && s.value() > 0) rpm = rpm == 0 ? s.value() : std::min(rpm, s.value());
        }
        double sp = setPoint(z), law = std::clamp(0.01 * (sp - rpm) + 0.01 * sp, 5.0, 95.0);
        if (failsafe(z) && !tuning) law = STRICT_FAILSAFE_PWM ? percent(z) : std::max(law, percent(z));
        return law;
    }
    static bool rawIs(const WSensor& s, double percent, double got)
    {
        double v = percent / 100.0;
        if (s.mx > 0) v = double(s.mx - s.mn) * v + double(s.mn);
        for (double e : {0.0, 1e-7, -1e-7})
            if (std::trunc(v + e) == got) return true;
        return false;
    }

    // ------------------------------------------------------------- watching
    std::vector<std::string> rowOf(const std::string& l)
    {
        std::vector<std::string> v;
        std::istringstream s(l);
        for (std::string w; std::getline(s, w, ',');) v.push_back(w);
        return v;
    }
    std::vector<std::string> linesOf(const std::string& file)
    {
        Quiet q;
        std::istringstream s(vp::readFile(file));
        std::vector<std::string> v;
        for (std::string l; std::getline(s, l);) v.push_back(l);
        return v;
    }
    bool watch()
    {
        int64_t iv = 0, th = 0;
        for (auto& z : zones) iv = std::max(iv, z.iv), th = std::max(th, z.th);
        int64_t tmo = 0;
        for (auto& [n, s] : ss) tmo = std::max<int64_t>(tmo, s.timeout);
        if (!run(tmo * 1000 + 2 * std::max(iv, th) + 2 * iv + 600)) return false;
        ops.clear();
        int64_t T = std::max<int64_t>(1000, 5 * iv), w0 = vp::clock::wall() / ms;
        size_t saidBefore = quiet->err.str().size();
        if (!run(T)) return false;
        for (auto& z : zones)
        {
            std::string o = obj(z), who = VP_STR("zone " << z.id << " at " << nowMs() << " ms");
            simbus::Val v;
            bool fsafe = failsafe(z);
            (fsafe ? failsafeSeen : normalSeen)++;
            if (f.chkFs && !z.manual)
            {
                VP_CHECK(c, sim.ownGet(o, MODE, "FailSafe", v), key("object"), who << " has no object on the bus");
                VP_CHECK(c, (v.i != 0) == fsafe, key("failsafe"), who << (fsafe ? " is not in failsafe although a sensor of it failed" : " is in failsafe although no sensor of it failed") << condition(z));
            }
            if (f.chkInput && !z.manual)
                for (auto& k : z.temps)
                {
                    if (k.cls == "step") continue;
                    double want = input(k);
                    VP_CHECK(c, sim.ownGet(o + "/" + k.name, "xyz.openbmc_project.Debug.Pid.ThermalPower", "Input", v), key("object"), k.name << " of " << who << " has no object on the bus");
                    VP_CHECK(c, vp::close(v.d, want, 1e-9, 1e-9), key("input"), k.name << " of " << who << " acts on " << num(v.d) << ", its sensors give " << num(want) << condition(z));
                }
            if (f.chkObj) objects(z, who);
            if (f.manual)
            {
                VP_CHECK(c, sim.ownGet(o, MODE, "Manual", v) && (v.i != 0) == z.manual, key("mode"), who << " shows Manual " << v.i << ", last set " << z.manual);
            }
            for (auto& [n, in] : z.fans)
                for (auto& i : in)
                {
                    auto& s = ss.at(i);
                    uint64_t w = 0;
                    for (auto& x : ops)
                        if (x.write && x.path == s.write) w++;
                    if (z.manual)
                    {
                        VP_CHECK(c, !f.manual || w == 0, key("write"), who << ", in manual mode, wrote " << s.write << " " << w << " times");
                        continue;
                    }
                    if (f.manual && !s.busWrite) VP_CHECK(c, std::fabs(double(w) - double(T) / double(z.iv)) <= 1.5, key("cadence"), who << ", in automatic mode, wrote " << s.write << " " << w << " times in " << T << " ms with an interval of " << z.iv);
                    double got;
                    if (s.busWrite)
                    {
                        auto it = busLast.find(s.write);
                        got = it == busLast.end() ? -1 : it->second;
                    }
                    else
                    {
                        Quiet q;
                        got = std::atof(vp::readFile(s.write).c_str());
                    }
                    double want = duty(z, in);
                    if (f.chkPwm)
                        VP_CHECK(c, rawIs(s, want, got), key("pwm"), who << ": " << s.write << " is driven at " << num(got) << ", which is not " << num(want) << "% of " << s.mn << " to " << s.mx << (fsafe ? ", in failsafe (" + num(percent(z)) + "%)" : "") << "; set-point " << num(setPoint(z)) << (tuning ? ", tuning" : "") << condition(z));
                    c.count("fan outputs compared");
                }
            if (f.logs && logging && !z.manual) expect(z, w0, double(T) / double(z.iv));
        }
        for (auto& x : ops)
            if (x.write)
            {
                bool known = false;
                for (auto& [n, s] : ss) known = known || x.path == s.write;
                VP_CHECK(c, known || !f.chkPwm, key("elsewhere"), x.path << ", no fan's output, was written at " << x.t << " ms");
            }
        if (f.logs) VP_CHECK(c, vp::fsjail::refused().empty(), key("folder"), "a file was created outside the logging folder: " << vp::fsjail::refused()[0]);
        if (f.start)
        {
            std::set<int> ids;
            for (auto& z : zones) ids.insert(z.id);
            VP_CHECK(c, p.zonesOnBus() == ids, key("zones"), "the zones on the bus are not those of the configuration that counts, " << (onBus ? "the one on the bus" : p.cfgFile));
            // with debugging every reading is told
            std::string said = quiet->err.str().substr(saidBefore);
            auto& n = zones[0].fans[0].second[0];
            uint64_t k = 0, due = uint64_t(T / zones[0].iv);
            for (size_t at = said.find(n); at != std::string::npos; at = said.find(n, at + 1)) k++;
            VP_CHECK(c, debug ? k + 2 >= due : k < 5, key("debug"), "debugging is " << (debug ? "on" : "off") << ", " << n << " was named " << k << " times in " << due << " cycles");
        }
        c.count("quiet moments compared");
        c.sig(uint64_t(failsafeSeen * 1000 + normalSeen));
        return true;
    }
    // all that is on the bus about a zone
    void objects(const WZone& z, const std::string& who)
    {
        constexpr auto PID = "xyz.openbmc_project.Debug.Pid.ThermalPower", DBG = "xyz.openbmc_project.Debug.Pid.Zone";
        std::string o = obj(z);
        simbus::Val v;
        auto get = [&](const std::string& path, const char* iface, const char* prop) {
            VP_CHECK(c, sim.ownGet(path, iface, prop, v), key("object"), path << " has no " << iface << "." << prop << ", " << who);
        };
        get(o, MODE, "Manual");
        VP_CHECK(c, (v.i != 0) == z.manual, key("manual"), who << " shows Manual " << v.i << ", last set " << z.manual);
        for (auto& k : z.temps)
        {
            std::string po = o + "/" + k.name;
            get(po, "xyz.openbmc_project.Object.Enable", "Enabled");
            VP_CHECK(c, (v.i != 0) == k.enabled, key("enabled"), k.name << " shows Enabled " << v.i << ", last set " << k.enabled);
            if (k.cls == "step") continue;
            get(po, PID, "ClassType");
            std::string cls = k.cls == "temp" ? "Temperature" : k.cls == "margin" ? "Margin" : k.cls == "power" ? "Power" : "PowerSum";
            VP_CHECK(c, v.s == cls, key("class"), k.name << " shows class " << v.s << ", it is " << cls);
            get(po, PID, "Setpoint");
            VP_CHECK(c, v.d == k.sp, key("setpoint"), k.name << " shows set-point " << num(v.d) << ", it has " << num(k.sp));
            if (z.manual) continue;
            std::string lead;
            double in = input(k, &lead);
            get(po, PID, "Input");
            VP_CHECK(c, vp::close(v.d, in, 1e-9, 1e-9), key("input"), k.name << " shows Input " << num(v.d) << ", it acts on " << num(in) << condition(z));
            get(po, PID, "Output");
            VP_CHECK(c, vp::close(v.d, output(k), 1e-9, 1e-6), key("output"), k.name << " shows Output " << num(v.d) << ", its output is " << num(output(k)) << condition(z));
            get(po, PID, "Leader");
            VP_CHECK(c, lead.empty() || v.s == lead, key("leader"), k.name << " shows Leader " << v.s << ", its input came from " << lead << condition(z));
            c.count("controllers' objects compared");
        }
        if (z.manual) return;
        get(o, MODE, "FailSafe");
        VP_CHECK(c, (v.i != 0) == failsafe(z), key("failsafe"), who << " shows FailSafe " << v.i << ", it should be " << failsafe(z) << condition(z));
        // who decided
        double m = 0, ceil = vp::INF;
        std::map<std::string, double> sums;
        std::map<std::string, std::set<std::string>> names;
        for (auto& k : z.temps)
        {
            if (!k.enabled) continue;
            if (k.ceiling)
            {
                ceil = std::min(ceil, output(k));
                continue;
            }
            auto n = z.acc ? k.name.substr(k.name.find('_') + 1) : k.name;
            sums[n] += output(k);
            names[n].insert(k.name);
        }
        for (auto& [n, x] : sums) m = std::max(m, x);
        get(o, DBG, "Leader");
        // near a tie either may be named
        std::set<std::string> may;
        double cap = std::min(m, ceil), tol = 1e-6;
        if (z.minOut >= cap - tol) may.insert("Minimum");
        if (z.minOut <= cap + tol && ceil <= m + tol) may.insert("Ceiling");
        if (z.minOut <= cap + tol && m <= ceil + tol)
            for (auto& [n, x] : sums)
                if (x >= m - tol)
                {
                    std::string all;
                    for (auto& i : names[n]) all += (all.empty() ? "" : " + ") + i;
                    may.insert(all);
                }
        VP_CHECK(c, may.count(v.s), key("decider"), who << " names '" << v.s << "', which did not decide its set-point of " << num(setPoint(z)) << condition(z));
        c.count("zones' objects compared");
        // what cannot be written
        VP_CHECK(c, !sim.ownSet(o, MODE, "FailSafe", toVal(!failsafe(z))) && !sim.ownSet(o, DBG, "Leader", toVal(std::string("me"))), key("readonly"), who << ": a read-only property could be written");
    }
    // The time of day is set while everything reports as before, or while a
    // sensor falls silent. Nothing in it tells how long a sensor was silent.
    bool clockStep()
    {
        for (auto& [n, s] : ss) s.trouble = 0, apply(s);
        if (!watch()) return false; // (all are healthy, and no zone is in failsafe)
        bool fwd = r.chance(0.5);
        int64_t by = r.range(10, 100000000);
        WSensor* quietOne = nullptr;
        lastAlive = -1000;
        alive();
        if (!fwd)
        {
            std::vector<WSensor*> v;
            for (auto& z : zones)
                for (auto& k : z.temps)
                    for (auto& i : k.in)
                        if (ss.at(i).kind != 's' && !missOk(z, i)) v.push_back(&ss.at(i));
            if (v.empty()) return true;
            quietOne = r.pick(v);
            quietOne->trouble = 's';
        }
        c.log << "[" << nowMs() << " ms] the time of day is set " << by << " s " << (fwd ? "forward" : "back") << (quietOne ? "; silent: " + quietOne->name : "") << "\n";
        vp::clock::advanceWall((fwd ? by : -by) * 1000000000);
        c.count("time of day set");
        if (fwd)
        {
            if (!p.step(360)) return false; // (before the next report)
        }
        else if (!run(quietOne->timeout * 1000 + 1000)) return false;
        for (auto& z : zones)
        {
            simbus::Val v;
            bool want = failsafe(z);
            VP_CHECK(c, sim.ownGet(obj(z), MODE, "FailSafe", v), key("object"), "zone " << z.id << " has no object on the bus");
            VP_CHECK(c, (v.i != 0) == want, fwd ? "wall-clock-forward" : "wall-clock-back", "zone " << z.id << (want ? " is not in failsafe although a sensor of it has been silent for its timeout" : " is in failsafe although every sensor of it reported within its timeout") << ": the time of day was set " << by << " s " << (fwd ? "forward" : "back") << condition(z));
        }
        if (quietOne) quietOne->trouble = 0, apply(*quietOne);
        return true;
    }
    std::string condition(const WZone& z)
    {
        std::ostringstream o;
        for (auto& [n, s] : ss)
        {
            bool mine = false;
            for (auto& k : z.temps) mine = mine || std::count(k.in.begin(), k.in.end(), n);
            for (auto& [k, in] : z.fans) mine = mine || std::count(in.begin(), in.end(), n);
            if (mine) o << "; " << n << " " << num(s.v) << (s.trouble ? std::string(" trouble ") + s.trouble : "") << (failing(s) ? " failed" : "") << " timeout " << s.timeout << (s.tol ? " tolerant" : "");
        }
        return o.str();
    }
    // rows reach the file some time later: they are looked at in the end
    struct Want
    {
        int zone;
        int64_t from, to;
        double due;
        std::map<std::string, double> v;
    };
    std::vector<Want> wants;
    void expect(const WZone& z, int64_t from, double due)
    {
        auto& w = wants.emplace_back(Want{z.id, from, vp::clock::wall() / ms, due, {}});
        w.v["setpt"] = setPoint(z);
        w.v["failsafe"] = failsafe(z);
        for (auto& k : z.temps)
            for (auto& i : k.in) w.v[i + "_raw"] = ss.at(i).value();
        for (auto& [q, in] : z.fans)
            for (auto& i : in)
            {
                // (on the bus a fan is named after its tachometer and output)
                auto& s = ss.at(i);
                std::string n = onBus ? i + s.write.substr(s.write.rfind('/') + 1) : i;
                w.v[n + "_raw"] = s.value();
                w.v[n + "_pwm"] = duty(z, in) / 100;
            }
    }
    void checkLogs()
    {
        for (auto& w : wants)
        {
            std::string file = logDir + "/zone_" + std::to_string(w.zone) + ".log";
            auto l = linesOf(file);
            VP_CHECK(c, l.size() > 1, key("missing"), "there is no log " << file);
            auto head = rowOf(l[0]);
            uint64_t n = 0;
            for (size_t k = 1; k < l.size(); k++)
            {
                auto row = rowOf(l[k]);
                VP_CHECK(c, head.size() == row.size(), key("columns"), file << ": " << row.size() << " fields under " << head.size() << " columns: " << l[k]);
                std::map<std::string, std::string> m;
                for (size_t i = 0; i < head.size(); i++) m[head[i]] = row[i];
                int64_t at = std::atoll(m["epoch_ms"].c_str());
                if (at <= w.from || at > w.to) continue;
                n++;
                for (auto& [col, want] : w.v)
                {
                    VP_CHECK(c, m.count(col), key("columns"), file << " has no column " << col);
                    char* e = nullptr;
                    double x = std::strtod(m[col].c_str(), &e);
                    VP_CHECK(c, e && !*e && (std::isnan(want) ? std::isnan(x) : std::fabs(x - want) <= 6e-6 * std::fabs(want)), key("value"), file << ": " << col << " is logged as " << m[col] << ", it was " << num(want) << ": " << l[k]);
                }
                c.count("log rows compared");
            }
            VP_CHECK(c, std::fabs(double(n) - w.due) <= 1.5, key("rows"), file << " has " << n << " rows from " << w.from << " to " << w.to << ", " << num(w.due) << " cycles were due");
        }
    }

    // configurations in places that do not count here
    void decoys(bool named)
    {
        Quiet q;
        auto text = [&] {
            if (r.chance(0.25)) return r.of<std::string>({"", "not even JSON", "{}", "{\"sensors\":[],\"zones\":[]}"});
            p.all.push_back(genJson(p, false, false));
            p.files(p.all.back());
            return p.all.back().json;
        };
        std::vector<std::string> where{d + "/cwd/Config.json", d + "/var/config.json.old", d + "/usr/swampd.json", d + "/etc/config.json", d + "/cwd/sub/config.json", d + "/config.json"};
        if (!onBus)
        {
            bool after = named;
            for (auto n : {d + "/cwd/config.json", d + "/var/config.json", d + "/usr/config.json"})
            {
                if (after) where.push_back(n), where.push_back(n);
                if (n == p.cfgFile) after = true;
            }
            if (r.chance(0.5))
            {
                p.all.push_back(genBus(p));
                p.provide(p.all.back());
                publishOther(p, p.all.back());
                c.log << "  objects of another configuration on the bus\n";
                c.count("configurations passed over");
            }
        }
        vp::mkdirs(d + "/cwd/sub");
        for (auto& w : where)
            if (w != p.cfgFile && r.chance(0.5))
            {
                std::string t = text();
                vp::writeFile(w, t);
                c.log << "  " << w << ": " << t.substr(0, 60) << "\n";
                c.count("configurations passed over");
            }
    }

    // -------------------------------------------------------------- the run
    void go()
    {
        std::vector<std::string> args;
        onBus = f.kinds.find('d') != std::string::npos && !f.clock && r.chance(f.bus);
        p.cfgFile = onBus ? d + "/cwd/config.json" : placeConfig(p, args);
        c.count(onBus ? "configurations on the bus" : "configurations in files");
        sim.services[EM]["/xyz/openbmc_project/inventory"][OMIF];
        sim.services["svc.Temps"]["/xyz/openbmc_project/sensors"][OMIF];
        sim.onSet = [&](const simbus::SetRec& s) {
            if (s.iface != FANPWM || !s.ok) return;
            ops.push_back({nowMs(), true, s.path, s.value.num()});
            busLast[s.path] = s.value.num();
        };
        vp::mkdirs(d + "/log2");
        auto flag = [&](const char* opt, const char* file, double prob) {
            if (!r.chance(prob)) return false;
            bool both = r.chance(0.2), byFile = r.chance(0.5);
            if (both || !byFile) args.push_back(opt);
            if (both || byFile) vp::writeFile(d + "/etc/" + file, "");
            return true;
        };
        debug = flag(r.of({"-d", "--debug"}), "debugging", f.start ? 0.5 : 0.2);
        tuning = flag(r.of({"-t", "--tuning"}), "tuning", f.tuning ? 0.7 : 0);
        std::string byArg, tmp = d + "/tmp";
        if (f.logs)
        {
            coreLog = flag(r.of({"-g", "--corelogging"}), "corelogging", 0.5);
            if (r.chance(0.4)) args.insert(args.end(), {r.of({"-l", "--log"}), byArg = d + "/log"});
            logging = !byArg.empty();
            logDir = byArg.empty() ? tmp : byArg;
            if (r.chance(0.5))
            {
                logging = true;
                switch (r.range(0, 3))
                {
                    case 0: vp::writeFile(d + "/etc/logging", ""); break;
                    case 1: vp::writeFile(d + "/etc/logging", d + "/nowhere\n"); break;
                    default:
                        vp::writeFile(d + "/etc/logging", d + "/log2" + (r.chance(0.5) ? "\n" : "\nmore\n"));
                        logDir = d + "/log2";
                }
            }
            coreDir = logging ? logDir : tmp;
        }
        if (f.host && r.chance(0.7)) host(r.chance(0.5));
        if (f.tuning)
        {
            // files that are there from the start
            if (r.chance(0.3)) vp::writeFile(d + "/etc/setpoint", tuneText(tuneAll = int(r.range(101, 9000))));
        }
        if (f.red)
            for (int k = 0; k < 3; k++)
                if (r.chance(0.6)) groups["/xyz/openbmc_project/control/FanRedundancy/g" + std::to_string(k)];
        generate();
        if (f.start) decoys(!args.empty() && args[0] == "-c");
        c.log << "options:";
        for (auto& a : args) c.log << " " << a;
        c.log << "\n";
        bool done = false;
        vp::Silence& sil = *quiet;
        int rc = runDaemon(c, sil, args, [&] {
            int phases = int(r.range(2, c.thorough ? 8 : 5));
            bool ok = run(500);
            for (int k = 0; ok && k < phases; k++)
            {
                if (k && r.chance(0.2))
                {
                    generate();
                    p.note("SIGHUP");
                    c.count("reloads");
                    raise(SIGHUP);
                    ok = run(25000, 100);
                    // (what is on the bus already is not said again)
                    for (auto& [n, s] : ss) apply(s);
                    for (auto& [g, st] : groups) setGroup(g, true);
                }
                if (ok && f.clock)
                {
                    ok = clockStep();
                    continue;
                }
                if (ok && (k || r.chance(0.8))) change();
                ok = ok && watch();
            }
            if (!p.ended) p.kill();
            while (!p.ended) p.step(10);
            done = true;
        });
        VP_CHECK(c, done, key("self-termination"), "the daemon's main returned " << rc << " although nobody asked it to end");
        if (f.logs)
        {
            Quiet q;
            checkLogs();
            for (auto dir : {d + "/log", d + "/log2", tmp, d + "/cwd", d + "/etc", d + "/var", d + "/usr"})
                for (auto& e : fs::directory_iterator(dir))
                {
                    std::string n = e.path().filename();
                    bool zone = n.starts_with("zone_"), core = n.starts_with("pid");
                    VP_CHECK(c, !zone || (logging && dir == logDir), key("unasked"), e.path().string() << " was created; zone logs: " << (logging ? "in " + logDir : std::string("off")));
                    VP_CHECK(c, !core || (coreLog && dir == coreDir), key("unasked"), e.path().string() << " was created; core logs: " << (coreLog ? "in " + coreDir : std::string("off")));
                }
            if (coreLog)
                for (std::string n : coreNames)
                {
                    std::erase(n, '_'); // letters and digits only
                    for (auto k : {"pidcore.", "pidcoeffs."})
                        VP_CHECK(c, fs::exists(coreDir + "/" + k + n), key("missing"), "there is no " << coreDir << "/" << k << n);
                }
        }
        c.count("zones seen in failsafe", failsafeSeen);
        c.count("zones seen in normal mode", normalSeen);
        if (failsafeSeen && normalSeen) c.nontrivial();
        c.leaveByExit = true;
    }
    vp::Silence* quiet = nullptr;
};
void whole(Case& c, const Focus& f)
{
    startUp(c);
    vp::Silence sil;
    Whole w(c, f);
    w.quiet = &sil;
    w.go();
}

// Starts that come to nothing: options that cannot be honoured, no
// configuration at all, or one that cannot be used.
void startFail(Case& c)
{
    auto& r = c.rng;
    startUp(c);
    vp::Silence sil;
    Platform p(c);
    std::string d = c.dir();
    std::vector<std::string> args, places{d + "/cwd/config.json", d + "/var/config.json", d + "/usr/config.json"};
    p.sim.services[EM]["/xyz/openbmc_project/inventory"][OMIF];
    p.sim.services["svc.Temps"]["/xyz/openbmc_project/sensors"][OMIF];
    p.sim.onSet = [&](const simbus::SetRec& s) {
        if (s.iface == FANPWM && s.ok) ops.push_back({nowMs(), true, s.path, s.value.num()});
    };
    p.all.reserve(64);
    auto valid = [&](const std::string& where) -> Cfg& {
        p.all.push_back(genJson(p, false, false));
        auto& g = p.all.back();
        p.files(g);
        Quiet q;
        vp::writeFile(where, g.json);
        c.log << "  usable: " << where << "\n";
        return g;
    };
    auto onBus = [&] {
        p.all.push_back(genBus(p));
        p.provide(p.all.back());
        publish(p, p.all.back());
        c.log << "  usable: on the bus\n";
    };
    auto nothing = [&](const char* why) {
        VP_CHECK(c, p.zonesOnBus().empty(), "start-anyway", why << ", yet there are zones on the bus");
        for (auto& o : ops) VP_CHECK(c, !o.write, "start-anyway", why << ", yet " << o.path << " was written");
    };
    int kind = int(r.range(0, 9));
    c.nontrivial();
    c.leaveByExit = true;
    if (kind < 4)
    {
        // options
        for (auto& w : places)
            if (r.chance(0.5)) valid(w);
        if (r.chance(0.5)) onBus();
        std::vector<std::vector<std::string>> bad{{"-c", d + "/etc/none.json"}, {"--conf", d + "/cwd"}, {"-l", d + "/nowhere"}, {"--log", d + "/etc/afile"}, {"--unknown"}, {"-x"}, {"-c"}, {"extra"}};
        vp::writeFile(d + "/etc/afile", "");
        args = r.pick(bad);
        for (auto o : {"-t", "-d", "-g"})
            if (r.chance(0.3)) args.insert(args.begin(), o);
        c.log << "options:";
        for (auto& a : args) c.log << " " << a;
        c.log << "\n";
        c.sig(args.back());
        c.count("starts with options that cannot be honoured");
        int rc = runDaemon(c, sil, args, [&] {
            p.pass(5000);
            c.fail("option-ignored", "the daemon runs although an option of it cannot be honoured");
        });
        VP_CHECK(c, rc != 0, "exit-status", "main returned 0 although an option cannot be honoured");
        nothing("an option cannot be honoured");
        return;
    }
    if (kind < 6)
    {
        // nothing to run: it waits, and runs what it is given
        c.count("starts without any configuration");
        bool done = false;
        int rc = runDaemon(c, sil, args, [&] {
            p.pass(r.range(100, 30000));
            nothing("there is no configuration");
            auto& g = valid(p.cfgFile = r.pick(places));
            raise(SIGHUP);
            if (p.await(g, 65000)) p.window(g, 2000);
            if (!p.ended) p.kill();
            while (!p.ended) p.step(10);
            done = true;
        });
        VP_CHECK(c, done && rc == 0, "self-termination", "main returned " << rc << " before it was asked to end");
        return;
    }
    // the one that counts cannot be used, others could
    std::string bad = r.of<std::string>({"", "not even JSON", "{}", "[]", "{\"sensors\":[],\"zones\":[]}", "{\"zones\":[]}"});
    if (r.chance(0.4))
    {
        Cfg g = genJson(p, false, false);
        bad = g.json;
        switch (r.range(0, 2))
        {
            case 0: bad.resize(bad.size() / 2); break;
            case 1: bad.replace(bad.find("\"readPath\""), 10, "\"unread\""); break;
            default: bad = bad.substr(0, bad.find("\"zones\":[")) + "\"zones\":[]}";
        }
    }
    size_t at = size_t(r.range(-1, 2)) + 1;
    if (at == 0)
    {
        p.cfgFile = d + "/etc/my.json";
        args = {r.of({"-c", "--conf"}), p.cfgFile};
    }
    else p.cfgFile = places[at - 1];
    for (size_t i = at; i < places.size(); i++)
        if (r.chance(0.7)) valid(places[i]);
    if (r.chance(0.5)) onBus();
    {
        Quiet q;
        vp::writeFile(p.cfgFile, bad);
    }
    c.log << p.cfgFile << ": " << bad << "\n";
    c.sig(bad);
    c.count("starts with an unusable configuration before usable ones");
    int rc = runDaemon(c, sil, args, [&] {
        c.allowExit(1);
        p.pass(3000);
        c.fail("unusable-passed-over", "the daemon runs on although the configuration that counts cannot be used");
    });
    (void)rc;
}

// Configurations come, go and move between the places that are searched; each
// reload takes the one that counts then.
void startMove(Case& c)
{
    auto& r = c.rng;
    startUp(c);
    vp::Silence sil;
    Platform p(c);
    std::string d = c.dir();
    std::vector<std::string> args, places{d + "/cwd/config.json", d + "/var/config.json", d + "/usr/config.json"};
    bool named = r.chance(0.3);
    if (named) places.insert(places.begin(), d + "/etc/my.json"), args = {r.of({"-c", "--conf"}), places[0]};
    p.sim.services[EM]["/xyz/openbmc_project/inventory"][OMIF];
    p.sim.services["svc.Temps"]["/xyz/openbmc_project/sensors"][OMIF];
    p.sim.onSet = [&](const simbus::SetRec& s) {
        if (s.iface == FANPWM && s.ok) ops.push_back({nowMs(), true, s.path, s.value.num()});
    };
    p.all.reserve(128);
    std::vector<Cfg*> at(places.size(), nullptr);
    auto put = [&](size_t i) {
        p.all.push_back(genJson(p, false, true));
        at[i] = &p.all.back();
        p.files(*at[i]);
        p.provide(*at[i]);
        Quiet q;
        vp::writeFile(places[i], at[i]->json);
        p.note(places[i] + " is now configuration " + std::to_string(at[i]->ver));
    };
    auto gone = [&](size_t i) {
        if (at[i]) p.note(places[i] + " is gone");
        at[i] = nullptr;
        Quiet q;
        fs::remove(places[i]);
    };
    auto counts = [&]() -> Cfg* {
        for (auto g : at)
            if (g) return g;
        return nullptr;
    };
    // the named file has to be there
    auto shuffle = [&] {
        for (size_t i = 0; i < places.size(); i++)
            if (r.chance(0.5))
            {
                if (r.chance(0.5)) put(i);
                else if (!(named && i == 0)) gone(i);
            }
        if (named ? !at[0] : !counts()) put(named ? 0 : size_t(r.range(0, int(places.size()) - 1)));
    };
    Cfg* bus = nullptr;
    shuffle();
    c.nontrivial();
    bool done = false;
    int rc = runDaemon(c, sil, args, [&] {
        Cfg* cur = counts();
        int rounds = int(r.range(2, 4));
        for (int k = 0;; k++)
        {
            c.sig(cur->json);
            if (!p.await(*cur, 65000)) break;
            int64_t iv = 0;
            for (auto& z : cur->zones) iv = std::max(iv, z.iv);
            if (!p.window(*cur, std::max<int64_t>(1500, 5 * iv)) || p.ended) break;
            c.count("configurations in force");
            if (k == rounds) break;
            auto before = cur;
            if (!named && !bus && r.chance(0.25))
            {
                for (size_t i = 0; i < places.size(); i++) gone(i);
                p.all.push_back(genBus(p));
                cur = bus = &p.all.back();
                p.provide(*cur);
                publish(p, *cur);
                p.note("the configuration on the bus counts");
                c.count("moves to the bus");
            }
            else
            {
                if (bus && r.chance(0.5)) shuffle();
                shuffle();
                cur = counts();
            }
            p.note("SIGHUP");
            ops.clear();
            raise(SIGHUP);
            if (r.chance(0.2))
            {
                p.pass(r.of<int64_t>({10, 500, 900}));
                raise(SIGHUP);
                p.note("SIGHUP");
            }
            if (cur == before && !p.pass(15000)) break; // the same once more
            c.count("reloads");
        }
        if (!p.ended) p.kill();
        while (!p.ended) p.step(10);
        done = true;
    });
    VP_CHECK(c, done && rc == 0, "self-termination", "main returned " << rc << " before it was asked to end");
}
