"""Which harness units decide which property."""


def u(name, src=None, **kw):
    d = {"name": name, "src": src or [name + ".cpp"]}
    d.update(kw)
    return d


CHECKS = {
    "C01": {
        "units": [u("ctl", scenario="law_core,law_overflow,law_thermal,law_fan")],
        "rule": "Random controller configurations (coefficients of both signs and zero, equal, empty and wide limits, one- and two-sided slew, sample periods 0.01 to 10 s) and histories of 8 to 600 readings (walks, holds, steps, spikes, changing set-points); non-trivial when the output changed more than twice.",
    },
    "C02": {
        "units": [u("ctl", scenario="limits,windup")],
        "rule": 'Random controller configurations with saturating, extreme (up to 1e300) and oscillating inputs, and pairs of controllers saturated for different times; non-trivial when an output met an output or slew limit.',
    },
    "C03": {
        "units": [u("ctl", scenario="hysteresis")],
        "rule": "Random bands and modes with readings placed on, next to and around the band edges; non-trivial when a hysteresis decision other than 'act' was taken.",
    },
    "C04": {
        "units": [u("ctl", scenario="step_table,step_ctl")],
        "rule": 'Random tables of 1 to 20 points with inputs on, next to, between and beyond points, several inputs with NaN among them, hysteresis edges; non-trivial when more than one evaluation happened.',
    },
    "C05": {
        "units": [u("ctl", scenario="thermal_input"), u("daemon", scenario="whole_objects")],
        "rule": 'All classes, 1 to 12 inputs, mixtures of finite, negative, huge, NaN and infinite readings and conversions; non-trivial with several inputs or none valid. The same of the whole daemon (its own main, on virtual time): generated configurations, every sensor, state and file brought into a known condition, compared at quiet moments with what the configuration says of them.',
    },
    "C13": {
        "units": [u("ctl", scenario="fan_input"), u("daemon", scenario="whole_fans")],
        "rule": '1 to 8 fans with zero, negative, NaN, infinite and spinning speeds and misleading scaled values; non-trivial with several fans. The same of the whole daemon (its own main, on virtual time): generated configurations, every sensor, state and file brought into a known condition, compared at quiet moments with what the configuration says of them.',
    },
    "C06": {
        "units": [u("zs", scenario="zone_setpoint"), u("daemon", scenario="whole_setpoint")],
        "rule": 'Random sets of 1 to 3 real zones (buildZones and pidControlLoop on virtual time) over a shared pool of recording sensors with injected failures, silences, NaN readings, mode and enable changes; non-trivial when the zone was both in and out of failsafe. The same of the whole daemon (its own main, on virtual time): generated configurations, every sensor, state and file brought into a known condition, compared at quiet moments with what the configuration says of them.',
    },
    "C07": {
        "units": [u("zs", scenario="zone_failsafe"), u("daemon", scenario="whole_failsafe,whole_clock")],
        "rule": 'Random sets of 1 to 3 real zones (buildZones and pidControlLoop on virtual time) over a shared pool of recording sensors with injected failures, silences, NaN readings, mode and enable changes; non-trivial when the zone was both in and out of failsafe. The same of the whole daemon (its own main, on virtual time): generated configurations, every sensor, state and file brought into a known condition, compared at quiet moments with what the configuration says of them.',
    },
    "C08": {
        "units": [u("zs", scenario="zone_fans"), u("zs", scenario="zone_fans", cfg="strict", scale=0.4), u("zs", scenario="zone_fans", cfg="off", scale=0.4), u("daemon", scenario="whole_failsafe"), u("daemon", scenario="whole_failsafe", cfg="strict", scale=0.5)],
        "rule": 'Random sets of 1 to 3 real zones (buildZones and pidControlLoop on virtual time) over a shared pool of recording sensors with injected failures, silences, NaN readings, mode and enable changes; non-trivial when fans were written both in and out of failsafe. The same of the whole daemon (its own main, on virtual time): generated configurations, every sensor, state and file brought into a known condition, compared at quiet moments with what the configuration says of them.',
    },
    "C09": {
        "units": [u("zs", scenario="zone_manual"), u("daemon", scenario="whole_manual")],
        "rule": 'Random sets of 1 to 3 real zones (buildZones and pidControlLoop on virtual time) over a shared pool of recording sensors with injected failures, silences, NaN readings, mode and enable changes; non-trivial when the zone was both in and out of failsafe. The same of the whole daemon (its own main, on virtual time): generated configurations, every sensor, state and file brought into a known condition, compared at quiet moments with what the configuration says of them.',
    },
    "C10": {
        "units": [u("zs", scenario="zone_cadence")],
        "rule": 'Random sets of 1 to 3 real zones (buildZones and pidControlLoop on virtual time) over a shared pool of recording sensors with injected failures, silences, NaN readings, mode and enable changes; handlers that take (virtual) time; non-trivial when the zone was both in and out of failsafe.',
    },
    "C20": {
        "units": [u("zs", scenario="zone_log"), u("corelog"), u("daemon", scenario="whole_logs")],
        "rule": 'Random sets of 1 to 3 real zones (buildZones and pidControlLoop on virtual time) over a shared pool of recording sensors with injected failures, silences, NaN readings, mode and enable changes; the log files are compared column by column with the recorded cycles. Core logs: 1 to 4 controllers with odd and colliding names stepped 20 to 200 times with pauses up to a minute, set up again now and then; every row is compared with the terms of the law. The same of the whole daemon (its own main, on virtual time): generated configurations, every sensor, state and file brought into a known condition, compared at quiet moments with what the configuration says of them.',
    },
    "C21": {
        "units": [u("zs", scenario="zone_tuning"), u("daemon", scenario="whole_tuning")],
        "rule": 'Random sets of 1 to 3 real zones (buildZones and pidControlLoop on virtual time) over a shared pool of recording sensors with injected failures, silences, NaN readings, mode and enable changes; set-point files written, emptied, filled with junk and removed while running. The same of the whole daemon (its own main, on virtual time): generated configurations, every sensor, state and file brought into a known condition, compared at quiet moments with what the configuration says of them.',
    },
    "C27": {
        "units": [u("zs", scenario="zone_bus"), u("daemon", scenario="whole_objects")],
        "rule": 'Random sets of 1 to 3 real zones (buildZones and pidControlLoop on virtual time) over a shared pool of recording sensors with injected failures, silences, NaN readings, mode and enable changes; non-trivial when the zone was both in and out of failsafe. The same of the whole daemon (its own main, on virtual time): generated configurations, every sensor, state and file brought into a known condition, compared at quiet moments with what the configuration says of them.',
    },
    "C11": {
        "units": [u("io", scenario="fan_write"), u("daemon", scenario="whole_fans")],
        "rule": "1 to 5 fans with file (also wildcard) and D-Bus outputs built by buildSensors, with and without a range; commands repeated, stepped by less than one raw unit, forced and not, with failing bus calls and files changed by other hands; non-trivial when more than two writes took effect. The same of the whole daemon (its own main, on virtual time): generated configurations, every sensor, state and file brought into a known condition, compared at quiet moments with what the configuration says of them.",
    },
    "C12": {
        "units": [u("io", scenario="dbus_sensor"), u("io", scenario="dbus_sensor", cfg="off", scale=0.6), u("io", scenario="dbus_sensor", cfg="strict", scale=0.6), u("daemon", scenario="whole_bus")],
        "rule": "1 to 4 D-Bus sensors of all types with random ranges, exponents, options and initial states, then 10 to 120 property signals (values incl. NaN, infinities, zero and huge, both alarms together and apart, availability, functional state, unrelated paths and interfaces); three build configurations; non-trivial when both failed and healthy states were seen. The same of the whole daemon (its own main, on virtual time): generated configurations, every sensor, state and file brought into a known condition, compared at quiet moments with what the configuration says of them.",
    },
    "C16": {
        "units": [u("io", scenario="build_all"), u("io", scenario="build_all", cfg="strict", scale=0.3)],
        "rule": "1 to 8 sensors mixing file, wildcard, D-Bus and external sources and every kind of output, with sources changing while read, and set-ups that cannot succeed; non-trivial with several sensors.",
    },
    "C18": {
        "units": [u("io", scenario="ipmi")],
        "rule": "0 to 6 zones numbered 0 to 255 and requests of 0 to 40 bytes in buffers of exactly that size, known and unknown commands, zones that do not exist or do not answer; non-trivial when requests were both served and refused.",
    },
    "C23": {
        "units": [u("io", scenario="host_off"), u("daemon", scenario="whole_host")],
        "rule": "Host state absent, present, changing before and after the subscription, with look-alike states and paths; D-Bus and external sensors with and without the option, failing and recovering in between; non-trivial when failures were both masked and shown. The same of the whole daemon (its own main, on virtual time): generated configurations, every sensor, state and file brought into a known condition, compared at quiet moments with what the configuration says of them.",
    },
    "C24": {
        "units": [u("io", scenario="redundancy"), u("daemon", scenario="whole_red")],
        "rule": "1 to 4 redundancy groups, overlapping, with changing members, failed at start or later, unreadable or incomplete, over 1 to 6 sensors that also fail on their own; non-trivial when a fan was in a failed group. The same of the whole daemon (its own main, on virtual time): generated configurations, every sensor, state and file brought into a known condition, compared at quiet moments with what the configuration says of them.",
    },
    "C25": {
        "units": [u("io", scenario="external"), u("daemon", scenario="whole_ext")],
        "rule": "1 to 5 external sensors written over the bus with repeated, extreme and non-finite values; non-trivial with failures or more than 20 writes. The same of the whole daemon (its own main, on virtual time): generated configurations, every sensor, state and file brought into a known condition, compared at quiet moments with what the configuration says of them.",
    },
    "C28": {
        "units": [u("io", scenario="sysfs_read"), u("daemon", scenario="whole_file")],
        "rule": "1 to 4 files, plain and behind a wildcard, holding integers of all sizes, junk, nothing, removed, replaced by folders; non-trivial when both good and missing readings were seen. The same of the whole daemon (its own main, on virtual time): generated configurations, every sensor, state and file brought into a known condition, compared at quiet moments with what the configuration says of them.",
    },
    "C14": {
        "units": [u("cfg", scenario="json_valid,json_broken,json_text"), u("daemon", scenario="whole_json")],
        "rule": "Random documents over all documented fields (present, absent, extreme; keys shuffled, unrelated keys added, numbers and strings spelled in different ways), documents with one required part missing or one value of the wrong kind, and texts cut, overwritten and spliced; non-trivial with several sensors and zones, or when refused. The same of the whole daemon (its own main, on virtual time): generated configurations, every sensor, state and file brought into a known condition, compared at quiet moments with what the configuration says of them.",
    },
    "C15": {
        "units": [u("cfg", scenario="dbus_config,dbus_refused"), u("cfg", scenario="dbus_config", cfg="strict", scale=0.5), u("daemon", scenario="whole_busconfig")],
        "rule": "Random buses: 0 to 3 zones with and without requested indexes, 0 to 6 controllers of every class with profiles, patterns, absent sensors, look-alike names, threshold offsets, margins and fans paired one-to-one or with one PWM, failing bus calls, and configurations broken in one place; two build configurations; non-trivial with several controllers. The same of the whole daemon (its own main, on virtual time): generated configurations, every sensor, state and file brought into a known condition, compared at quiet moments with what the configuration says of them.",
    },
    "C17": {
        "units": [u("daemon", scenario="daemon_reload,daemon_bus,daemon_fatal"), u("daemon", scenario="daemon_reload,daemon_bus,daemon_fatal", cfg="off", scale=0.4)],
        "rule": "The whole daemon (its own main) on virtual time with 1 to 6 random configurations each, from files in every place that is searched and from objects on the bus; reload requests and configuration changes at random moments, also overlapping, with sensors absent and bus calls failing while it builds; termination at a random moment of any phase; two build configurations; non-trivial when a window of running loops was checked.",
    },
    "C29": {
        "units": [u("daemon", scenario="whole_start,start_fail,start_move")],
        "rule": "The whole daemon (its own main) on virtual time, started with random options and enabling files, with the configuration that counts in any of the places and other configurations, usable or not, in places that come later or do not count; what it then shows, drives, logs and says is compared with the model of the one configuration and the modes asked for, also after a reload; and starts with options that cannot be honoured, without any configuration, and with an unusable one before usable ones; and configurations coming, going and moving between the places from reload to reload; non-trivial when zones were seen in failsafe and out of it, or the start had to fail.",
    },
    "C30": {
        "units": [u("tool", scenario="tool")],
        "rule": "The tool's own main, 1 to 3 runs, against real zones (any of 0, 1, 2, 10, 11, 100) and real external sensors with similar names on the bus, present or not, with the services there or not, in any state before; manual modes, readings, their times, other services and what the tool said are compared; non-trivial when both targets were there.",
    },
    "C31": {
        "units": [u("tool", scenario="sweep")],
        "rule": "The script itself, run by the shell as an unprivileged user with random bounds (close, far apart, equal, and ones that cannot be), with stand-ins for sleep, systemctl, mkdir and mv that write down what the daemon's files hold at each call, and every file it writes kept in a scratch directory; what the daemon would have been told, for how long, in which run, is compared with evenly spaced speeds in both directions; non-trivial when the bounds differ.",
    },
    "C19": {
        "units": [u("log")],
        "rule": "Sequences of 20 to 300 reports to 1 to 3 loggers with limits 0 to 100, bursts, pauses at and around a second and wall clock steps; real zones built over bus, external and file sensors with every sensor's reports and failures followed to the zones that require it, also after a rebuild; and whole zones running their loops while sensors fail and recover; non-trivial when several reports were routed or the zone changed state.",
    },
    "C26": {
        "units": [u("race", san="tsan", max_shards=2, scale=0.4), u("race", san="plain", max_shards=2)],
        "rule": "1 to 3 threads updating (directly, by bus signals, by writes to an external sensor) and 1 to 3 threads sampling the same sensor with random hesitations, once under the thread sanitizer and once at full speed; every sample is compared with the numbered update it shows; non-trivial when a sampling thread saw more than ten changes.",
    },
    "C22": {
        "units": [u("daemon", scenario="soak", shards=24), u("daemon", scenario="soak", cfg="strict", scale=0.4), u("daemon", scenario="soak", cfg="off", scale=0.4),
                  u("cfg", scenario="json_text,json_broken,dbus_refused", scale=0.3, fatal=True),
                  u("io", scale=0.12, fatal=True), u("zs", scale=0.1, fatal=True), u("ctl", scenario="limits,step_table,step_ctl,fan_input", scale=0.2, fatal=True),
                  u("daemon", san="plain", scenario="soak", scale=0.1, memcheck=True, hang=300),
                  u("ctl", cfg="off", san="plain", scenario="fan_input", scale=0.02, memcheck=True, hang=300, fatal=True)],
        "rule": "The whole daemon (its own main) on virtual time for minutes, under valid, odd and broken configurations from files and the bus, reloads, configuration changes, readings of every kind (NaN, infinities, huge), signals with properties of unexpected types, files that vanish or turn into folders, failing bus calls, objects that come and go and writes to its own objects; three build configurations under the address and undefined-behaviour sanitizers and one under memcheck; also the workloads of the other checks, judged by the sanitizers alone; non-trivial when the loops ran.",
    },
}
