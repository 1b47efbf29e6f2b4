// Included by daemon.cpp: the daemon under everything at once (C22). Nothing
// is expected of its control here, only that it neither corrupts anything nor
// ends unasked; what it was put through is counted.

struct Soak
{
    Case& c;
    vp::Rng& r;
    Sim& sim;
    Platform p;
    std::set<std::string> files, outs, ext; // sysfs paths, external objects
    std::map<std::string, std::string> bus; // sensor path -> service
    std::set<std::string> pwm;
    std::string sys, d;
    bool jsonPlace = false; // a file is in place
    bool fatalPossible = false;
    int gen = 0;
    double faultP = 0;
    double disrupt = 0; // how readily the configuration changes

    explicit Soak(Case& c_) : c(c_), r(c_.rng), sim(Sim::get()), p(c_)
    {
        d = c.dir();
        sys = sysRoot;
    }

    double anyNum()
    {
        switch (r.range(0, 11))
        {
            case 0: return 0;
            case 1: return r.coarse(-50, 150, 0.25);
            case 2: return r.real(-1e6, 1e6);
            case 3: return r.of({1e300, -1e300, 1e19, -1e19, 5e-324, -0.0, 1.7976931348623157e308});
            default: return r.coarse(20, 90, 0.5);
        }
    }
    double reading()
    {
        double p = r.unit();
        if (p < 0.06) return vp::NaN;
        if (p < 0.09) return r.of({vp::INF, -vp::INF});
        return anyNum();
    }
    std::string text()
    {
        switch (r.range(0, 13))
        {
            case 0: return "";
            case 1: return "\n";
            case 2: return "junk\n";
            case 3: return "nan\n";
            case 4: return "-1\n";
            case 5: return "99999999999999999999999\n";
            case 6: return "9223372036854775807\n";
            case 7: return "-9223372036854775808";
            case 8: return std::string(size_t(r.range(1, 5000)), '7');
            case 9: return std::string("12\0 34", 6);
            case 10: return "0x1F\n";
            default: return std::to_string(r.range(0, 90000)) + "\n";
        }
    }

    // ----------------------------------------------------------- sources
    std::string fileSource(bool wild)
    {
        std::string dir = sys + "c" + std::to_string(r.range(0, 2)) + "/", leaf = r.of<std::string>({"t", "f", "p"}) + std::to_string(r.range(1, 5)) + "_input";
        files.insert(dir + "hwmon3/" + leaf);
        return wild ? dir + "**/" + leaf : dir + "hwmon3/" + leaf;
    }
    std::string busSource(const std::string& type)
    {
        std::string layer = type == "fan" ? "fan_tach" : type == "power" || type == "powersum" ? "power" : "temperature";
        std::string path = "/xyz/openbmc_project/sensors/" + layer + "/s" + std::to_string(r.range(0, 7));
        bus[path] = "svc.S" + std::to_string(r.range(0, 1));
        return path;
    }
    std::string output()
    {
        switch (r.range(0, 9))
        {
            case 0: return "";
            case 1: return "/dev/null";
            case 2: case 3: case 4:
            {
                std::string path = "/xyz/openbmc_project/control/fanpwm/p" + std::to_string(r.range(0, 4));
                pwm.insert(path);
                return path;
            }
            default:
            {
                std::string leaf = "c" + std::to_string(r.range(0, 2)) + "/pwm" + std::to_string(r.range(1, 4));
                outs.insert(sys + leaf);
                if (!r.chance(0.2)) return sys + leaf;
                return sys + "**/" + leaf.substr(3);
            }
        }
    }
    void arrange(bool all)
    {
        Quiet q;
        for (auto& f : files)
            if (all || r.chance(0.5)) tryWrite(f, "42000\n");
        for (auto& f : outs)
            if (all || r.chance(0.5)) tryWrite(f, "1\n");
        for (auto& [path, svc] : bus)
            if (all || r.chance(0.5))
            {
                auto& o = sim.services[svc][path];
                o[VALUE]["Value"] = toVal(r.chance(0.15) ? std::nan("") : 40.0);
                if (r.chance(0.7)) o[VALUE]["Unit"] = toVal(std::string("DegreesC"));
                if (r.chance(0.3)) o[VALUE]["Scale"] = toVal(r.range(-20, 20));
                if (r.chance(0.3))
                {
                    o[VALUE]["MaxValue"] = toVal(reading());
                    o[VALUE]["MinValue"] = toVal(reading());
                }
                if (r.chance(0.5)) o[CRIT]["CriticalAlarmHigh"] = toVal(r.chance(0.1));
                if (r.chance(0.3)) o[CRIT]["CriticalAlarmLow"] = toVal(r.chance(0.1));
                if (r.chance(0.5)) o[WARN]["WarningAlarmHigh"] = toVal(r.chance(0.1));
                for (auto [i, n] : {std::pair{CRIT, "CriticalHigh"}, {CRIT, "CriticalLow"}, {WARN, "WarningHigh"}, {WARN, "WarningLow"}})
                    if (r.chance(0.5)) o[i][n] = toVal(reading());
                if (r.chance(0.4)) o[AVAIL]["Available"] = toVal(!r.chance(0.1));
                if (r.chance(0.4)) o[OPER]["Functional"] = toVal(!r.chance(0.1));
            }
        for (auto& path : pwm)
            if (all || r.chance(0.5)) sim.services["svc.Fans"][path][FANPWM]["Target"] = toVal(uint64_t(9));
    }
    void tryWrite(const std::string& f, const std::string& t)
    {
        std::error_code ec;
        if (fs::is_directory(f, ec)) fs::remove(f, ec);
        fs::create_directories(fs::path(f).parent_path(), ec);
        std::ofstream(f) << t;
    }

    // ------------------------------------------------------ configuration
    std::string law(bool fan, double iv)
    {
        std::ostringstream o;
        auto lim = [&](const char* n) {
            double a = fan ? r.coarse(0, 60, 0.5) : r.chance(0.1) ? -1e300 : r.real(-3000, 9000), b = fan ? r.coarse(0, 140, 0.5) : r.chance(0.1) ? 1e300 : a + r.real(0, 9000);
            if (fan && r.chance(0.8)) b = std::max(a, b);
            o << ",\"" << n << "_min\":" << num(a) << ",\"" << n << "_max\":" << num(b);
        };
        auto k = [&] { return num(r.chance(0.3) ? 0 : r.chance(0.1) ? anyNum() : r.coarse(-50, 50, 0.01)); };
        o << "\"pid\":{\"samplePeriod\":" << num(r.chance(0.8) ? (iv > 0 ? iv : 100) / 1000 : r.of({0.001, 1000.0, 1e-12})) << ",\"proportionalCoeff\":" << k() << ",\"integralCoeff\":" << k()
          << ",\"feedFwdOffsetCoeff\":" << k() << ",\"feedFwdGainCoeff\":" << k();
        lim("integralLimit");
        lim("outLim");
        bool slew = r.chance(0.4);
        o << ",\"slewNeg\":" << (slew ? num(-r.coarse(0, 100, 1)) : "0") << ",\"slewPos\":" << (slew ? num(r.coarse(0, 100, 1)) : "0");
        if (r.chance(0.4)) o << ",\"derivativeCoeff\":" << k();
        if (r.chance(0.3)) o << ",\"positiveHysteresis\":" << num(r.coarse(0, 10, 0.5)) << ",\"negativeHysteresis\":" << num(r.coarse(0, 10, 0.5));
        if (r.chance(0.3)) o << ",\"checkHysteresisWithSetpoint\":" << (r.chance(0.5) ? "true" : "false");
        o << "}";
        return o.str();
    }
    std::string table()
    {
        std::ostringstream o;
        o << "\"pid\":{\"samplePeriod\":0.1,\"isCeiling\":" << (r.chance(0.5) ? "true" : "false");
        if (r.chance(0.4)) o << ",\"positiveHysteresis\":" << num(r.coarse(0, 10, 0.5)) << ",\"negativeHysteresis\":" << num(r.coarse(0, 10, 0.5));
        int n = int(r.of({0, 1, 2, 5, 19, 20, 25}));
        double x = r.coarse(-20, 40, 0.5);
        std::ostringstream a, b;
        for (int i = 0; i < n; i++)
        {
            a << (i ? "," : "") << "\"" << i << "\":" << num(x);
            b << (i ? "," : "") << "\"" << i << "\":" << num(r.coarse(0, 9000, 1));
            x += r.coarse(0.5, 10, 0.5);
        }
        o << ",\"reading\":{" << a.str() << "},\"output\":{" << b.str() << "}}";
        return o.str();
    }
    std::string json()
    {
        std::ostringstream o, z;
        std::vector<std::string> temps, fans;
        int nt = int(r.range(0, 6)), nf = int(r.range(0, 4)), nz = int(r.range(1, 3));
        if (nf == 0 && r.chance(0.7)) nf = 2;
        if (nt == 0 && r.chance(0.7)) nt = 2;
        if (r.chance(0.02)) nz = 0;
        if (r.chance(0.02)) nt = nf = 0;
        complete = nz && nt + nf;
        o << "{\"sensors\":[";
        for (int i = 0; i < nt + nf; i++)
        {
            bool fan = i >= nt;
            std::string type = fan ? "fan" : r.of<std::string>({"temp", "temp", "margin", "power", "powersum"});
            std::string name = (fan ? "fan" : "s") + std::to_string(r.chance(0.05) ? 0 : i), read;
            if (r.chance(0.1)) name = r.of<std::string>({"", "a b/c", "\\u00e9", "x\\\"y", "Fan 1", "../up"}) + std::to_string(i);
            (fan ? fans : temps).push_back(name);
            int kind = int(r.range(0, fan ? 2 : 3));
            if (kind == 3)
            {
                read = "/xyz/openbmc_project/extsensors/temperature/e" + std::to_string(i);
                ext.insert(read);
            }
            else read = kind == 2 ? busSource(type) : fileSource(kind == 1 && r.chance(0.5));
            o << (i ? "," : "") << "{\"name\":\"" << name << "\",\"type\":\"" << type << "\",\"readPath\":\"" << read << "\"";
            if (fan) o << ",\"writePath\":\"" << output() << "\"";
            else if (r.chance(0.5)) o << ",\"writePath\":\"\"";
            if (fan)
            {
                int64_t a = r.of<int64_t>({0, 0, 20, 255}), b = r.of<int64_t>({0, 255, 255, 100, 1000000});
                if (r.chance(0.8)) o << ",\"min\":" << a << ",\"max\":" << b;
            }
            else if (r.chance(0.2)) o << ",\"min\":0,\"max\":100";
            if (r.chance(0.6)) o << ",\"timeout\":" << r.of<int64_t>({0, 0, 1, 2, 4, 60, -1, 1000000000});
            for (auto f : {"ignoreDbusMinMax", "unavailableAsFailed", "ignoreFailIfHostOff"})
                if (r.chance(0.3)) o << ",\"" << f << "\":" << (r.chance(0.5) ? "true" : "false");
            o << "}";
        }
        std::vector<int> ids{0, 1, 2, 3, 7, 254, 100000};
        r.shuffle(ids);
        for (int i = 0; i < nz; i++)
        {
            int64_t iv = r.of<int64_t>({10, 50, 100, 100, 100, 500, 1000, 0, -5});
            z << (i ? "," : "") << "{\"id\":" << (r.chance(0.03) && i ? ids[0] : ids[size_t(i)]) << ",\"minThermalOutput\":" << num(r.coarse(0, 4000, 1)) << ",\"failsafePercent\":" << num(r.of({0.0, 50.0, 75.5, 100.0, 120.0}));
            if (r.chance(0.8)) z << ",\"cycleIntervalTimeMS\":" << iv;
            if (r.chance(0.8)) z << ",\"updateThermalsTimeMS\":" << r.of<int64_t>({10, 100, 333, 1000, 1000, 5000, 0, -1});
            if (r.chance(0.3)) z << ",\"accumulateSetPoint\":" << (r.chance(0.5) ? "true" : "false");
            z << ",\"pids\":[";
            int np = r.chance(0.1) ? 0 : int(r.range(1, 5));
            bool first = true;
            for (int k = 0; k < np; k++)
            {
                std::string type = r.of<std::string>({"fan", "fan", "temp", "temp", "margin", "power", "powersum", "stepwise"});
                if (k == 0 && r.chance(0.7)) type = "fan";
                if (r.chance(0.01)) type = "other", complete = false; // refused
                auto& pool = type == "fan" ? fans : temps;
                std::vector<std::string> in;
                for (auto& x : pool)
                    if (r.chance(0.5)) in.push_back(x);
                if (in.empty() && !pool.empty() && !r.chance(0.05)) in.push_back(r.pick(pool));
                if (in.empty() && !r.chance(0.03)) continue;
                if (r.chance(0.005)) in.push_back("unknown");
                if (r.chance(0.03) && !in.empty()) in.push_back(in[0]);
                z << (first ? "" : ",") << "{\"name\":\"" << r.of<std::string>({"pid", "pid", "pid", "a b-", "z/"}) << (r.chance(0.03) ? 0 : k + 10 * i) << "\",\"type\":\"" << type << "\",\"inputs\":[";
                for (size_t q = 0; q < in.size(); q++) z << (q ? "," : "") << "\"" << in[q] << "\"";
                first = false;
                z << "],\"setpoint\":" << num(r.chance(0.05) ? anyNum() : r.coarse(0, 90, 0.5));
                if (type != "fan" && r.chance(0.3))
                {
                    z << ",\"tempToMargin\":[";
                    for (size_t q = 0; q < in.size(); q++) z << (q ? "," : "") << num(r.coarse(60, 110, 0.5));
                    z << "]";
                }
                if (r.chance(0.2))
                {
                    z << ",\"missingIsAcceptable\":[";
                    bool first = true;
                    for (auto& x : in)
                        if (r.chance(0.5))
                        {
                            z << (first ? "" : ",") << "\"" << x << "\"";
                            first = false;
                        }
                    z << "]";
                }
                if (r.chance(0.3)) z << ",\"FailSafePercent\":" << num(r.coarse(0, 110, 0.5));
                z << "," << (type == "stepwise" ? table() : law(type == "fan", double(iv))) << "}";
            }
            if (first && nt + nf && !r.chance(0.03))
            {
                z << "{\"name\":\"only\",\"type\":\"" << (temps.empty() ? "fan" : "temp") << "\",\"inputs\":[\"" << (temps.empty() ? fans : temps)[0] << "\"],\"setpoint\":50,";
                z << law(temps.empty(), double(iv)) << "}";
                first = false;
            }
            z << "]}";
            complete = complete && !first;
        }
        o << "],\"zones\":[" << z.str() << "]}";
        return o.str();
    }
    bool complete = true; // the last json() has sensors, zones and controllers

    simbus::Val loose(double v) // mostly a number, sometimes of another type
    {
        if (!sloppy) return toVal(v);
        switch (r.range(0, 24))
        {
            case 0: return toVal(int64_t(std::clamp(std::isnan(v) ? 0 : v, -1e9, 1e9)));
            case 1: return toVal(uint64_t(std::clamp(std::isnan(v) ? 0 : v, 0.0, 1e9)));
            case 2: return toVal(std::string("12"));
            case 3: return toVal(true);
            case 4: return toVal(std::vector<double>{v});
            case 5: return toVal(r.of<double>({std::nan(""), INFINITY, -INFINITY, 1e300, -1e300}));
        }
        return toVal(v);
    }
    bool sloppy = false; // values of other types, attributes that are missing
    void objects()
    {
        sloppy = r.chance(0.3);
        auto& o = sim.services[EM];
        o.clear();
        if (!r.chance(0.05)) o["/xyz/openbmc_project/inventory"][OMIF];
        std::vector<std::string> temps, fans, pw, zn;
        for (int i = int(r.range(1, 5)); i > 0; i--)
        {
            auto q = busSource(r.of<std::string>({"temp", "temp", "power"}));
            temps.push_back(q.substr(q.rfind('/') + 1));
        }
        for (int i = int(r.range(1, 4)); i > 0; i--)
        {
            auto q = busSource("fan");
            fans.push_back(q.substr(q.rfind('/') + 1));
            std::string w = "/xyz/openbmc_project/control/fanpwm/p" + std::to_string(r.range(0, 4));
            pwm.insert(w);
            pw.push_back(w.substr(w.rfind('/') + 1));
        }
        for (int i = 0, n = r.chance(0.05) ? 0 : int(r.range(1, 3)); i < n; i++)
        {
            auto& q = o[INV + "/Zone_" + std::to_string(i)][ZONEIF];
            zn.push_back("Zone " + std::to_string(i));
            if (!sloppy || !r.chance(0.02)) q["Name"] = toVal(zn.back());
            if (r.chance(0.6)) q["ZoneIndex"] = toVal(sloppy && r.chance(0.1) ? r.of<double>({std::nan(""), INFINITY, -INFINITY, 1e300, 8e18}) : double(r.range(0, 3) * 3 + i));
            if (!sloppy || !r.chance(0.02)) q["FailSafePercent"] = loose(r.coarse(0, 100, 0.5));
            if (!sloppy || !r.chance(0.02)) q["MinThermalOutput"] = loose(r.coarse(0, 3000, 1));
            if (r.chance(0.7)) q["CycleIntervalTimeMS"] = loose(double(r.of({10, 50, 100, 100, 1000, 0, -5})));
            if (r.chance(0.7)) q["UpdateThermalsTimeMS"] = loose(double(r.of({10, 100, 1000, 0, -5})));
            if (r.chance(0.3)) q["AccumulateSetPoint"] = toVal(r.chance(0.5));
        }
        for (int i = 0, n = r.chance(0.05) ? 0 : int(r.range(1, 6)); i < n; i++)
        {
            std::string cls = r.of<std::string>({"temp", "temp", "margin", "power", "powersum", "fan", "fan", "stepwise"});
            if (r.chance(0.02)) cls = "other";
            auto& q = o[INV + "/C" + std::to_string(i)][cls == "stepwise" ? STEPIF : PIDIF];
            auto put = [&](const char* k, simbus::Val v, double have = 1.0) {
                if (r.chance(sloppy ? have - 0.01 : have)) q[k] = std::move(v);
            };
            std::vector<std::string> in, zs, out;
            for (auto& x : cls == "fan" ? fans : temps)
                if (r.chance(0.6)) in.push_back(x);
            if (in.empty()) in.push_back((cls == "fan" ? fans : temps)[0]);
            if (cls == "fan" && !sloppy)
            {
                r.shuffle(in);
                in.resize(std::min(in.size(), pw.size()));
            }
            if (r.chance(sloppy ? 0.1 : 0.01)) in.push_back(r.of<std::string>({"gone", "s.*", "s[0-3]", "(", "s(?=1)", ""}));
            for (auto& x : zn)
                if (r.chance(0.6)) zs.push_back(x);
            if (zs.empty() && !zn.empty()) zs.push_back(zn[0]);
            if (r.chance(sloppy ? 0.1 : 0.005)) zs.push_back("Nowhere");
            for (auto& x : pw)
                if (r.chance(0.4)) out.push_back(x);
            if (!sloppy)
            {
                out = pw;
                r.shuffle(out);
                out.resize(r.chance(0.5) ? 1 : std::min(in.size(), pw.size()));
            }
            put("Name", toVal("Ctl " + std::to_string(i)));
            put("Zones", toVal(zs));
            put("Inputs", toVal(in));
            if (r.chance(0.2)) put("MissingIsAcceptable", toVal(in));
            if (r.chance(0.2)) put("IgnoreFailIfHostOff", toVal(r.chance(0.5)), 0.5);
            if (r.chance(0.2)) put("Profiles", toVal(std::vector<std::string>{r.of<std::string>({"A", "B"})}));
            if (r.chance(0.2)) put("FailSafePercent", loose(r.coarse(0, 100, 0.5)));
            if (r.chance(cls == "margin" ? 0.5 : 0.2)) put("TempToMargin", cls == "margin" || r.chance(0.5) ? toVal(std::vector<double>(in.size(), r.chance(0.4) ? r.of<double>({std::nan(""), INFINITY, 1e300}) : 90.0)) : loose(90));
            if (r.chance(0.2)) put("SetPointOffset", toVal(r.of<std::string>({"WarningHigh", "WarningLow", "CriticalHigh", "CriticalLow", "Other"})));
            put("PositiveHysteresis", loose(r.coarse(0, 9, 0.5)), 0.6);
            put("NegativeHysteresis", loose(r.coarse(0, 9, 0.5)), 0.6);
            if (cls == "stepwise")
            {
                int m = int(r.of({0, 1, 3, 19, 20, 21, 50}));
                std::vector<double> a, b;
                for (int k = 0; k < m; k++)
                {
                    a.push_back(20 + k * 2);
                    b.push_back(r.coarse(0, 9000, 1));
                }
                if (r.chance(0.1) && m) b.pop_back();
                put("Reading", toVal(a));
                put("Output", toVal(b));
                if (r.chance(0.5)) put("Class", toVal(r.of<std::string>({"Ceiling", "Floor"})));
                continue;
            }
            put("Class", toVal(cls));
            if (cls == "fan") put("Outputs", toVal(out), sloppy ? 0.9 : 1.0);
            put("SetPoint", loose(r.coarse(0, 90, 0.5)), sloppy ? 0.97 : 1.0);
            for (auto k : {"PCoefficient", "ICoefficient", "FFOffCoefficient", "FFGainCoefficient"}) put(k, loose(r.coarse(-10, 10, 0.01)));
            put("DCoefficient", loose(r.coarse(-10, 10, 0.01)), 0.3);
            put("SlewNeg", loose(r.chance(0.6) ? 0 : -r.coarse(0, 100, 1)));
            put("SlewPos", loose(r.chance(0.6) ? 0 : r.coarse(0, 100, 1)));
            double hi = cls == "fan" ? 100 : 9000;
            for (auto k : {"ILimitMin", "OutLimitMin"}) put(k, loose(r.coarse(0, hi / 2, 1)));
            for (auto k : {"ILimitMax", "OutLimitMax"}) put(k, loose(r.coarse(hi / 2, hi, 1)));
        }
        if (r.chance(0.3))
        {
            auto& m = sim.services["svc.Mode"]["/xyz/openbmc_project/control/thermal_mode"][THMODE];
            m["Current"] = toVal(r.of<std::string>({"A", "B", "Default"}));
            m["Supported"] = toVal(std::vector<std::string>{"A", "B"});
        }
    }

    // a new configuration; false: one that must end the daemon
    bool configure()
    {
        gen++;
        c.count("configurations");
        bool useBus = r.chance(0.35) && !p.fixedPlace;
        Quiet q;
        if (useBus)
        {
            objects();
            noConfig(p);
            jsonPlace = false;
            c.allowExit(1); // there may be no zone in it
            c.log << "[" << nowMs() << " ms] configuration of the bus, " << sim.services[EM].size() << " objects\n";
        }
        else
        {
            if (r.chance(0.3)) moveConfig(p);
            std::string j = json();
            jsonPlace = true;
            vp::writeFile(p.cfgFile, j);
            c.log << "[" << nowMs() << " ms] " << j << "\n";
            c.sig(j);
            if (!complete) c.allowExit(1);
        }
        arrange(!r.chance(0.2));
        return true;
    }
    void ruin()
    {
        std::string j = json();
        size_t at = size_t(r.range(0, int64_t(j.size()) - 1));
        switch (r.range(0, 4))
        {
            case 0: j.resize(at); break;
            case 1: j[at] = char(r.range(1, 126)); break;
            case 2: j.insert(at, r.of<std::string>({"{", "]", "\"", "\xff", "null", ","})); break;
            case 3: j.erase(at, size_t(r.range(1, 40))); break;
            default: j = r.of<std::string>({"", "null", "[]", "{}", "{\"sensors\":1,\"zones\":2}", "{\"sensors\":[[]],\"zones\":[]}"});
        }
        // numbers no integer can hold are not for integer slots
        for (size_t i = 0, run = 0; i < j.size(); i++)
        {
            bool dig = j[i] >= '0' && j[i] <= '9';
            run = dig ? run + 1 : 0;
            if (run > 17 || ((j[i] == 'e' || j[i] == 'E') && i && ((j[i - 1] >= '0' && j[i - 1] <= '9') || j[i - 1] == '.'))) j[i] = ' ', run = 0;
        }
        Quiet q;
        if (!p.fixedPlace && r.chance(0.3)) moveConfig(p);
        c.log << "[" << nowMs() << " ms] broken: " << j << "\n";
        vp::writeFile(p.cfgFile, j);
        jsonPlace = true;
        c.allowExit(1);
        c.count("broken configurations");
    }

    // -------------------------------------------------------------- chaos
    template <typename S> std::string some(const S& s)
    {
        if (s.empty()) return "";
        auto it = s.begin();
        std::advance(it, r.range(0, int64_t(s.size()) - 1));
        if constexpr (requires { it->first; }) return it->first;
        else return *it;
    }
    simbus::Val odd(simbus::Val v) // a property of another type than specified
    {
        if (!r.chance(0.02)) return v;
        c.count("signals of unexpected type");
        return r.of<simbus::Val>({toVal(std::string("x")), toVal(int64_t(3)), toVal(2.5), toVal(true), toVal(std::vector<std::string>{"y"}), toVal(uint8_t(7))});
    }
    void heal()
    {
        faultP = 0;
        arrange(true);
        Quiet q;
        for (auto& [path, svc] : bus)
        {
            simbus::Ifaces i{{VALUE, {{"Value", toVal(30.0)}}}};
            sim.emitAdded(svc, path, i);
            sim.emitChanged(svc, path, VALUE, {{"Value", toVal(r.coarse(20, 90, 0.5))}});
        }
        c.count("calm periods");
    }
    void act(int64_t what)
    {
        Quiet q;
        switch (what)
        {
            case 0: case 1:
            {
                auto f = some(files);
                if (f.empty()) break;
                std::error_code ec;
                switch (r.range(0, 5))
                {
                    case 0: fs::remove(f, ec); break;
                    case 1: fs::remove(f, ec); fs::create_directory(f, ec); break;
                    case 2: fs::remove_all(fs::path(f).parent_path(), ec); break;
                    default: tryWrite(f, text());
                }
                c.count("file events");
                break;
            }
            case 2:
            {
                auto f = some(outs);
                if (f.empty()) break;
                std::error_code ec;
                fs::remove(f, ec);
                if (r.chance(0.3)) fs::create_directory(f, ec);
                else if (r.chance(0.6)) tryWrite(f, text());
                c.count("file events");
                break;
            }
            case 3: case 4: case 5: case 6:
            {
                auto path = some(bus);
                if (path.empty()) break;
                sim.emitChanged(bus[path], path, VALUE, {{"Value", odd(toVal(reading()))}});
                c.count("readings signalled");
                break;
            }
            case 7:
            {
                auto path = some(bus);
                if (path.empty()) break;
                std::map<std::string, simbus::Val> ch;
                auto iface = r.of<const char*>({CRIT, CRIT, WARN, AVAIL, OPER});
                if (iface == AVAIL) ch["Available"] = odd(toVal(r.chance(0.6)));
                else if (iface == OPER) ch["Functional"] = odd(toVal(r.chance(0.6)));
                else
                    for (auto n : {"CriticalAlarmHigh", "CriticalAlarmLow", "WarningAlarmHigh", "WarningAlarmLow", "Else"})
                        if (r.chance(0.5)) ch[n] = odd(toVal(r.chance(0.4)));
                sim.emitChanged(bus[path], path, iface, ch);
                c.count("states signalled");
                break;
            }
            case 8:
            {
                auto own = sim.ownObjects();
                if (own.empty()) break;
                auto& [path, iface] = r.pick(own);
                std::string err;
                if (iface == MODE) sim.ownSet(path, iface, r.chance(0.8) ? "Manual" : "FailSafe", toVal(r.chance(0.4)), &err);
                else if (iface.find("Enable") != std::string::npos) sim.ownSet(path, iface, "Enabled", toVal(r.chance(0.5)), &err);
                else if (iface == VALUE) sim.ownSet(path, iface, r.of<const char*>({"Value", "Value", "Value", "MaxValue", "MinValue"}), toVal(reading()), &err);
                else
                {
                    simbus::Val v;
                    for (auto n : {"Leader", "Setpoint", "Output", "Input", "PTerm", "Manual"}) sim.ownGet(path, iface, n, v);
                }
                c.count("writes to the daemon's objects");
                break;
            }
            case 9:
            {
                auto e = some(ext);
                if (!e.empty()) sim.ownSet(e, VALUE, "Value", toVal(reading()), nullptr);
                break;
            }
            case 10:
                sim.services["svc.Host"][HOSTPATH][HOSTIF]["CurrentHostState"] = toVal(std::string("x"));
                sim.emitChanged("svc.Host", r.chance(0.9) ? HOSTPATH : "/xyz/openbmc_project/state/host1", HOSTIF,
                                {{r.chance(0.9) ? "CurrentHostState" : "RequestedHostTransition", odd(toVal(r.of<std::string>({"xyz.openbmc_project.State.Host.HostState.Running", "xyz.openbmc_project.State.Host.HostState.Off", "junk"})))}});
                c.count("host states");
                break;
            case 11:
            {
                std::string g = "/xyz/openbmc_project/control/FanRedundancy/g" + std::to_string(r.range(0, 2));
                std::vector<std::string> mem;
                for (auto& [b, s] : bus)
                    if (r.chance(0.4)) mem.push_back(b);
                auto& o = sim.services["svc.Red"][g]["xyz.openbmc_project.Control.FanRedundancy"];
                o["Collection"] = odd(toVal(mem));
                o["Status"] = toVal(r.of<std::string>({"xyz.openbmc_project.Control.FanRedundancy.State.Failed", "xyz.openbmc_project.Control.FanRedundancy.State.Full"}));
                if (r.chance(0.1)) o.erase("Collection");
                sim.emitChanged("svc.Red", g, "xyz.openbmc_project.Control.FanRedundancy", {{"Status", odd(o["Status"])}});
                c.count("redundancy states");
                break;
            }
            case 12:
                faultP = r.of({0.0, 0.0, 0.0, 0.02, 0.1, 0.5, 1.0});
                c.count("changes of the bus's reliability");
                break;
            case 13:
            {
                auto path = some(bus);
                if (path.empty()) break;
                if (r.chance(0.5))
                {
                    sim.services[bus[path]].erase(path);
                    sim.emitRemoved(bus[path], path, {VALUE});
                }
                else
                {
                    sim.services[bus[path]][path][VALUE]["Value"] = toVal(30.0);
                    simbus::Ifaces i{{VALUE, {{"Value", toVal(30.0)}}}};
                    if (r.chance(0.3)) i["xyz.openbmc_project.Association.Definitions"] = {};
                    sim.emitAdded(bus[path], path, i);
                }
                c.count("objects come and go");
                break;
            }
            case 14:
            {
                std::string f = d + "/etc/setpoint" + (r.chance(0.5) ? "" : ".zone" + std::to_string(r.range(0, 3)));
                if (r.chance(0.3)) fs::remove(f);
                else vp::writeFile(f, r.of<std::string>({"", "3000", "junk", "-5", "1e300", "nan", "0x", "99999999999999999999"}));
                break;
            }
            case 15: vp::clock::advanceWall(r.of<int64_t>({-3600 * sec, 3600 * sec, -1 * sec, 1000000 * sec})); break;
            case 16:
                if (!r.chance(disrupt)) break;
                sim.emitChanged(EM, INV + "/C0", r.of<const char*>({PIDIF, ZONEIF, STEPIF}), {{"SetPoint", toVal(50.0)}});
                c.count("reconfigurations announced");
                break;
            case 17:
                if (!r.chance(disrupt)) break;
                raise(SIGHUP);
                c.count("SIGHUP");
                break;
            case 18:
                if (!r.chance(disrupt)) break;
                configure();
                if (r.chance(0.7)) raise(SIGHUP);
                else sim.emitChanged(EM, INV + "/C0", PIDIF, {{"SetPoint", toVal(50.0)}});
                break;
            default:
            {
                std::error_code ec;
                if (r.chance(0.2)) fs::remove_all(d + "/log", ec);
                else fs::create_directories(d + "/log", ec);
            }
        }
    }
    void run()
    {
        std::vector<std::string> args;
        p.cfgFile = placeConfig(p, args);
        sim.services[EM]["/xyz/openbmc_project/inventory"][OMIF];
        sim.services["svc.S0"]["/xyz/openbmc_project/sensors"][OMIF];
        sim.mapperIncludesOwn = r.chance(0.7);
        sim.fault = [&](const simbus::Msg&) -> std::string {
            if (faultP == 0 || !r.chance(faultP)) return "";
            c.count("failed bus calls");
            return r.of<std::string>({"org.freedesktop.DBus.Error.NoReply", "xyz.openbmc_project.Common.Error.ResourceNotFound", "org.freedesktop.DBus.Error.UnknownObject"});
        };
        sim.onSet = [&](const simbus::SetRec& s) {
            if (s.iface == FANPWM) ops.push_back({nowMs(), true, s.path, s.value.num()});
        };
        if (r.chance(0.5)) args.insert(args.end(), {"-l", d + "/log"});
        for (auto f : {"-t", "-d", "-g"})
            if (r.chance(0.3)) args.push_back(f);
        for (auto f : {"/etc/logging", "/etc/tuning", "/etc/debugging", "/etc/corelogging"})
            if (r.chance(0.1)) vp::writeFile(d + f, f == std::string("/etc/logging") ? d + "/log" : "");
        bool brokenAtStart = r.chance(0.04);
        if (brokenAtStart) ruin();
        else if (!r.chance(0.03)) configure();
        else if (p.fixedPlace) vp::writeFile(p.cfgFile, "{}"), c.allowExit(1);
        else noConfig(p);
        if (r.chance(0.1)) faultP = r.of({0.05, 0.5, 1.0});
        bool done = false;
        int rc = runDaemon(c, *sil, args, [&] {
            int64_t T = (c.thorough ? 600000 : 120000) * r.range(1, 4) / 2;
            double rate = r.of({0.02, 0.2, 0.7});
            int64_t grain = r.of<int64_t>({10, 50, 100, 500});
            disrupt = r.of({0.0, 0.01, 0.05, 0.3});
            int64_t phase = 0;
            bool calm = false;
            while (nowMs() < T && !p.ended)
            {
                if (nowMs() >= phase)
                {
                    calm = !calm;
                    phase = nowMs() + (calm ? r.range(12000, 40000) : r.range(1000, 40000));
                    if (calm) heal();
                }
                if (calm)
                {
                    if (!p.step(r.range(1, grain))) break;
                    if (r.chance(0.02)) act(r.range(0, 6));
                    continue;
                }
                for (int k = 0; r.chance(rate) && k < 6; k++) act(r.range(0, 19));
                if (!p.step(r.chance(0.01) ? r.range(1000, 30000) : r.range(1, grain))) break;
                c.count("steps");
            }
            size_t w = 0;
            for (auto& o : ops) w += o.write;
            c.count("fan writes", w);
            c.count("sensor file reads", ops.size() - w);
            c.sig(w);
            if (w > 50 || ops.size() > 500) c.nontrivial();
            if (!p.ended && r.chance(0.15))
            {
                ruin();
                raise(SIGHUP);
                p.pass(15000);
            }
            if (!p.ended && p.killed < 0) p.kill();
            while (!p.ended) p.step(10);
            done = true;
        });
        VP_CHECK(c, done, "self-termination", "the daemon's main returned " << rc << " although nobody asked it to end");
        VP_CHECK(c, rc == 0, "exit-status", "main returned " << rc << " after a termination request");
        c.leaveByExit = true;
    }
    vp::Silence* sil = nullptr;
};
vp::Silence* lastWords = nullptr;
void soak(Case& c)
{
    startUp(c);
    vp::Silence sil;
    lastWords = &sil;
    std::atexit([] {
        if (!lastWords) return;
        std::string t = lastWords->err.str();
        fprintf(stderr, "\n%s\n", t.substr(t.size() > 1500 ? t.size() - 1500 : 0).c_str());
    });
    Soak s(c);
    s.sil = &sil;
    s.run();
    lastWords = nullptr;
}
