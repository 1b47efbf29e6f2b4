#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the records stay easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "PID output follows the documented control law at every step",
 "For every configured controller and every sequence of finite inputs and set-points, each output equals the sum of the proportional term, the accumulated and limited integral term, the derivative term (change of error over the sample period) and the feed-forward term, limited to the output range and then to the slew limits relative to the previous output. When a slew limit is configured, the integral is re-derived from the limited output (output minus proportional term) and limited again, so later outputs continue from there.",
 ["inputs", "histories", "configurations"], "every coefficient set with a non-zero sample period, every finite sequence of (input, set-point) pairs, including changing set-points",
 "No existing test steps the PID core more than once with non-trivial coefficients; the law is a statement over histories (integral, previous error and previous output carry over).",
 ["pid/ec/pid.cpp", "pid/pidcontroller.cpp", "pid/util.cpp", "pid/thermalcontroller.cpp", "pid/fancontroller.cpp"],
 [("pid()", "pid/ec/pid.cpp"), ("initializePIDStruct", "pid/util.cpp"), ("PIDController::process", "pid/pidcontroller.cpp")],
 ["ec::pid return value and controller outputs handed to the zone"])
prop("C02", "Controller outputs and integral stay inside their configured limits",
 "For finite inputs, a controller's output never leaves its configured output range unless a slew limit forbids getting there at once, never rises or falls per sample by more than the configured slew rates allow, and its accumulated integral never leaves its configured range. After any saturation or extreme input the controller leaves the limit as soon as its terms call for it, with no windup beyond the integral range.",
 ["inputs", "histories", "configurations"], "all coefficient sets including zero and one-sided slew limits, long histories, extreme and oscillating inputs, step changes",
 "Existing tests never drive a PID into saturation; the bound must hold after any history.",
 ["pid/ec/pid.cpp", "pid/pidcontroller.cpp"], [("clamp, slew and integral back-calculation", "pid/ec/pid.cpp")],
 ["output and stored integral after each step"])
prop("C03", "PID hysteresis holds or resets the output exactly as configured",
 "With hysteresis configured, a controller keeps acting on the last accepted reading until the reading moves up by more than the positive or down by more than the negative band, and then acts on the new reading. In the set-point hysteresis mode it computes the PID only while the reading is above set-point plus the positive band, holds its previous output inside the band, and outputs zero with a cleared integral below set-point minus the negative band.",
 ["inputs", "histories", "configurations"], "all reading sequences around the band edges (including exact equality), both modes, zero and asymmetric bands, non-finite start values",
 "Tests sample no hysteresis sequence; whether a reading counts depends on the whole history of accepted readings.",
 ["pid/pidcontroller.cpp", "pid/pidcontroller.hpp"], [("calPIDOutput", "pid/pidcontroller.cpp")], ["controller outputs handed to the zone"])
prop("C04", "Stepwise control returns the table entry for its input, with hysteresis",
 "A stepwise controller's output is the entry of the highest table point whose reading does not exceed the largest valid input value, or the first entry when the input is below every point; undefined points end the table and up to twenty points are honoured. The output changes only when the input has moved by more than the configured positive or negative hysteresis since the last change was evaluated, and a ceiling table limits the zone's request instead of raising it.",
 ["inputs", "histories", "configurations"], "all tables of 1 to 20 points, inputs at, between and beyond points, NaN inputs among valid ones, hysteresis sequences",
 "The stepwise tests are not even linked here and try one table with a handful of inputs.",
 ["pid/ec/stepwise.cpp", "pid/ec/stepwise.hpp", "pid/stepwisecontroller.cpp"], [("stepwise", "pid/ec/stepwise.cpp"), ("StepwiseController::process", "pid/stepwisecontroller.cpp")], ["set-points and ceilings handed to the zone"])
prop("C05", "A thermal controller acts on the right one of its sensor readings",
 "The input of a thermal controller is the minimum of its valid readings for margin class, the maximum for temperature and power class, and the sum for the power-sum class, where readings configured for temperature-to-margin conversion count as the configured limit minus the temperature. Non-finite readings are ignored, and if no reading is valid the controller behaves as if the reading equalled its set-point.",
 ["inputs", "configurations"], "all classes, 1..n inputs, any mixture of finite, negative, huge, NaN and infinite readings, mixed conversions",
 "Tests use one to three inputs with fixed values; the choice must be right for every combination and order.",
 ["pid/thermalcontroller.cpp", "util.cpp"], [("ThermalController::inputProc", "pid/thermalcontroller.cpp"), ("spliceInputs", "util.cpp")], ["inputProc value; controller output and per-PID debug object on D-Bus"])
prop("C06", "A zone's fan set-point is the highest request, capped and floored",
 "After each thermal cycle the zone's fan set-point is the largest output of its enabled thermal controllers (with accumulation on, the largest sum per profile), reduced to the lowest ceiling if one is lower, and raised to the configured minimum; requests from earlier cycles and from disabled controllers have no effect. The zone names the controller, ceiling or minimum that decided it.",
 ["inputs", "histories", "configurations"], "any number of thermal, stepwise and ceiling controllers, any non-negative outputs, enabling and disabling over D-Bus between cycles, accumulation on and off",
 "The zone tests need libraries that are absent here and check single calls with literal numbers.",
 ["pid/zone.cpp", "pid/zone.hpp", "pid/pidloop.cpp"], [("addSetPoint / determineMaxSetPointRequest / clearSetPoints", "pid/zone.cpp"), ("processThermals", "pid/pidloop.cpp")], ["zone set-point seen by the fan controllers; Leader property on D-Bus"])
prop("C07", "A zone is in failsafe exactly while a required sensor has failed",
 "A zone starts in failsafe, and after each sampling of its sensors it is in failsafe if and only if at least one of its sensors that is not marked as acceptable-when-missing was failed, or had not been refreshed for its configured timeout (zero meaning no timeout), when last sampled. A sensor that recovers stops holding the zone in failsafe, and one zone's sensors never affect another zone that does not use them.",
 ["histories", "fault_sequences", "schedules", "configurations"], "all sequences of failures, recoveries and silences of any subset of the sensors, in any order relative to fan and thermal cycles, shared sensors, several zones",
 "Tests flip one or two mock sensors once; the guarantee is about every history of failures and recoveries.",
 ["pid/zone.hpp", "pid/zone.cpp", "pid/pidloop.cpp", "sensors/pluggable.cpp"], [("processSensorInputs, markSensorMissing, initializeCache", "pid/zone.hpp, pid/zone.cpp")], ["FailSafe property; failsafe sensor list; PWM writes"])
prop("C08", "In failsafe every fan is driven at least at the failsafe speed",
 "While a zone is in failsafe every PWM the daemon commands to its fans is at least the largest failsafe percentage configured for the failed sensors (the zone's own percentage where none is configured), and exactly that percentage when strict failsafe is built in. Out of failsafe the PWM is the fan controller's own output, and in tuning mode failsafe does not alter it.",
 ["inputs", "fault_sequences", "configurations"], "all controller outputs, percentages, sets of failed sensors, build options, transitions in and out of failsafe",
 "Unit tests try two or three percentages with one fan; the bound must hold for every set of failed sensors and every write.",
 ["pid/fancontroller.cpp", "pid/zone.cpp", "pid/builder.cpp"], [("outputProc", "pid/fancontroller.cpp"), ("getFailSafePercent, addPidFailSafePercent", "pid/zone.cpp")], ["PWM values written to sysfs and D-Bus"])
prop("C09", "Manual mode suspends all fan writes and automatic mode restores them",
 "While a zone is in manual mode the daemon performs no fan write for that zone, however long it lasts and whatever its sensors do, while other zones keep running. After the return to automatic mode the next fan cycle rewrites every fan of the zone once even if the value is unchanged, and control carries on at the normal cadence.",
 ["histories", "schedules"], "all sequences of manual-mode changes over D-Bus or IPMI at any point between cycles, any durations",
 "No test runs the loop with a real zone; the property is about sequences of cycles.",
 ["pid/zone.cpp", "pid/pidloop.cpp", "pid/fancontroller.cpp"], [("setManualMode / getRedundantWrite", "pid/zone.cpp"), ("pidControlLoop", "pid/pidloop.cpp")], ["PWM writes; Manual property"])
prop("C10", "The control loop keeps its configured cadence without drift",
 "The fan cycle of a zone runs once per configured interval measured from the loop's start, without accumulated drift however long handlers take, and a late cycle is made up. Thermal cycles run at start and then at the configured ratio to fan cycles with any remainder carried over, so that over time their rate matches the configured thermal interval; each zone keeps its own cadence.",
 ["schedules", "configurations", "histories"], "all interval pairs (including thermal shorter than or not a multiple of the fan interval), handler delays, long runs, manual-mode pauses",
 "No test executes the loop at all.",
 ["pid/pidloop.cpp", "pid/zone.cpp"], [("pidControlLoop", "pid/pidloop.cpp")], ["virtual-time stamps of the zone callbacks and PWM writes"])
prop("C11", "Each fan receives the commanded duty cycle in its own units",
 "A commanded duty cycle reaches each fan's output as the truncated value of duty times (max-min) plus min when the output has a range, and as the plain truncated value otherwise, and goes only to that fan's configured path. A D-Bus output is rewritten only when the raw value changes or a rewrite is forced, the raw value reported back is the one in effect, and a write that failed is tried again on the next command.",
 ["inputs", "histories", "fault_sequences", "configurations"], "all duty cycles, ranges and write sequences; failing D-Bus calls at any point",
 "No test writes through the real sysfs or D-Bus writers.",
 ["sysfs/sysfswrite.cpp", "dbus/dbuswrite.cpp", "sensors/pluggable.cpp", "sensors/builder.cpp"], [("SysFsWritePercent::write", "sysfs/sysfswrite.cpp"), ("DbusWritePercent::write", "dbus/dbuswrite.cpp")], ["file contents; D-Bus Set calls"])
prop("C12", "A D-Bus sensor's reading and health follow the signals received",
 "After any sequence of property signals the sensor's reading is the last finite value received, scaled by its exponent and range, and stamped with the time it arrived, or not a number from the moment the sensor becomes unavailable until the next value. It counts as failed exactly when its latest reading was not finite, its margin is used up, a threshold alarm or a non-functional state stands, or it is unavailable, except that an unavailable non-fan sensor configured to tolerate that never counts as failed.",
 ["histories", "inputs", "configurations"], "all orders and repetitions of value, alarm, availability and functional signals with any value types, all sensor types and ranges",
 "The tests (absent libraries) send one signal each; health is a function of the whole signal history.",
 ["dbus/dbuspassive.cpp", "dbus/dbushelper.cpp", "dbus/dbusutil.cpp"], [("handleSensorValue, updateValue, getFailed", "dbus/dbuspassive.cpp"), ("getProperties, thresholdsAsserted", "dbus/dbushelper.cpp")], ["read() and getFailed() of the sensor"])
prop("C13", "A fan controller acts on its slowest spinning fan",
 "The input of a fan controller is the smallest finite positive unscaled speed among its fans, or zero when there is none, and its target is the zone's current set-point. The duty cycle it computes is written to every one of its fans.",
 ["inputs", "configurations"], "all combinations of tach readings including zero, negative, NaN and infinite, 1..n fans",
 "Tests use two or three literal readings.",
 ["pid/fancontroller.cpp"], [("inputProc, setptProc, outputProc", "pid/fancontroller.cpp")], ["inputProc value and fan writes"])
prop("C14", "A JSON configuration is loaded faithfully or rejected",
 "Every sensor, controller and zone field of a valid JSON configuration takes effect with exactly the given value, absent optional fields take the documented defaults, and key order or unrelated keys make no difference. A configuration lacking a required part or with a value of the wrong kind is rejected by an error instead of being partially applied, and malformed text never crashes the loader.",
 ["inputs", "configurations"], "all well-formed configurations over the documented fields, and mutated or truncated ones",
 "The JSON tests cover a few literal documents.",
 ["pid/buildjson.cpp", "sensors/buildjson.cpp", "buildjson/buildjson.cpp", "util.cpp"], [("from_json, buildPIDsFromJson", "pid/buildjson.cpp"), ("buildSensorsFromJson", "sensors/buildjson.cpp"), ("validateJson", "buildjson/buildjson.cpp")], ["the configuration structures returned"])
prop("C15", "A D-Bus configuration yields exactly the described zones and controllers",
 "From the configuration objects on the bus the daemon derives one zone per zone object, each with a distinct index (the requested one when free), and puts into each zone exactly the controllers of the selected profiles that name it, with the given values, the inputs found on the bus by name or pattern, each fan paired with its PWM, and documented defaults for what is absent. Inputs missing from the bus are left out without affecting the treatment of the others.",
 ["configurations", "inputs"], "all sets of zone, PID and stepwise objects, profiles, name patterns, missing sensors, threshold offsets and bus layouts",
 "Nothing tests the D-Bus configuration reader.",
 ["dbus/dbusconfiguration.cpp", "dbus/dbusutil.cpp", "util.cpp"], [("dbus_configuration::init", "dbus/dbusconfiguration.cpp"), ("setZoneIndex, findSensors", "dbus/dbusutil.cpp")], ["the configuration structures returned"])
prop("C16", "Each configured sensor is backed by the source its paths name",
 "A sensor whose read path is a sysfs, D-Bus, or external path is read from exactly that place, is written only if it is a fan and only to its write path, and carries its configured timeout, range and options; reading one sensor never returns another's data. A sensor that cannot be set up makes the load fail instead of being silently dropped.",
 ["configurations", "inputs"], "all combinations of sensor type, read and write path kinds, ranges, and missing bus objects",
 "Only the path classification is tested; building the sensors is not.",
 ["sensors/builder.cpp", "sensors/build_utils.cpp", "sensors/manager.cpp", "sensors/pluggable.cpp", "sensors/host.cpp"], [("buildSensors", "sensors/builder.cpp"), ("getReadInterfaceType", "sensors/build_utils.cpp")], ["reads and writes at each path"])
prop("C17", "Reload and shutdown stop every old loop and resume with the new config",
 "After a reload request or configuration change the daemon runs exactly the zones of the new configuration, each with a single loop at its own cadence, and nothing of the old ones keeps writing; it retries until the configuration can be built. A termination request ends the daemon within a bounded time at any point of its life, after writing the failsafe speed to the fans when that build option is on.",
 ["schedules", "fault_sequences", "crash_points", "histories"], "reload, configuration-change and termination requests at any point relative to cycles, start-up and each other, with failing builds in between",
 "No test runs the daemon.",
 ["main.cpp", "pid/pidloop.cpp", "pid/fancontroller.cpp", "dbus/dbusconfiguration.cpp"], [("stopControlLoops, restartControlLoops, signalHandler", "main.cpp"), ("eventHandler", "dbus/dbusconfiguration.cpp")], ["PWM writes, exported objects, process exit, in virtual time"])
prop("C18", "The IPMI OEM commands read and set exactly the named zone's mode",
 "Each get request returns the named zone's manual or failsafe state as one byte, and each set request changes the manual mode of that zone only, for every zone number. Requests that are too short, unknown, or whose zone does not answer are refused with an error code and change nothing, and no request length or content makes the handler read or write beyond the buffers it was given.",
 ["inputs", "fault_sequences"], "all request bytes, lengths, zone numbers and bus failures",
 "No test covers the IPMI handlers.",
 ["ipmi/manualcmds.cpp", "ipmi/dbus_mode.cpp", "ipmi/main_ipmi.cpp"], [("manualModeControl", "ipmi/manualcmds.cpp"), ("getControlPath", "ipmi/dbus_mode.cpp")], ["reply buffer, return code, D-Bus calls"])
prop("C19", "Failsafe messages are bounded, not repeated, and go to the right zone",
 "For each zone at most the configured number of failsafe messages appears in any one-second window, the same location and reason is not repeated while the zone's state is unchanged, and after a state change it can be reported again. A message about a thermal sensor goes to the log of every zone that requires that sensor and to no other, and the entering, staying and leaving wording matches the transition.",
 ["histories", "schedules"], "all sequences of reports over time for any zones, sensors and reasons",
 "No test calls the logger.",
 ["failsafeloggers/failsafe_logger.cpp", "failsafeloggers/builder.cpp", "failsafeloggers/failsafe_logger_utility.hpp"], [("outputFailsafeLog", "failsafeloggers/failsafe_logger.cpp")], ["lines on the error stream"])
prop("C20", "Zone and core logs record what the loops really did",
 "With logging on, each fan cycle of a zone appends one row, under a header naming the same columns, that holds the time, set-point, requester, every fan's reading and last command, every sensor's reading and the failsafe state of that cycle. With core logging on, each controller's rows hold the terms that produced its outputs, written when they change and otherwise once a minute, and files are created only in the logging folder.",
 ["histories", "configurations"], "all zones and sensors, names with special characters, changing values, reinitialisation",
 "Nothing reads the logs back.",
 ["pid/ec/logging.cpp", "pid/zone.cpp", "pid/zone.hpp", "pid/pidloop.cpp", "main.cpp"], [("LogInit, LogContext", "pid/ec/logging.cpp"), ("initializeLog, updateFanTelemetry", "pid/zone.cpp")], ["log file contents"])
prop("C21", "Tuning set-point files override the computed set-point only in tuning",
 "In tuning mode a set-point file holding a whole number above 100 replaces the zone's set-point, the zone's own file taking precedence over the common one, from the next thermal cycle on; files that are missing, empty, unparsable or hold 100 or less leave the computed set-point unchanged. Outside tuning mode the files have no effect.",
 ["inputs", "histories", "configurations"], "all file contents and presence combinations, zone numbers, changes between cycles",
 "No test covers the tuning files.",
 ["pid/zone.cpp"], [("fileParseRpm, determineMaxSetPointRequest", "pid/zone.cpp")], ["zone set-point after each thermal cycle"])
prop("C22", "No input, configuration or fault makes the daemon corrupt memory",
 "Whatever valid configuration it runs, whatever readings, signals, failures, mode changes and reloads it meets, and whatever malformed configuration it is given, the daemon performs no out-of-bounds, use-after-free, uninitialised or otherwise undefined memory or arithmetic operation and does not terminate except on request or by reporting a fatal configuration error.",
 ["inputs", "histories", "fault_sequences", "schedules", "configurations"], "all workloads of the other properties plus fuzzed configurations",
 "The tests are not run under sanitizers and reach a third of the sources.",
 ["pid", "dbus", "sensors", "sysfs", "ipmi", "main.cpp", "util.cpp"], [("all code", "repository-wide")], ["sanitizer reports, signals, exit status"])
prop("C23", "Host-off tolerance suppresses sensor failures only while the host is off",
 "A failed sensor configured to tolerate a switched-off host does not count as failed while the host is not running, and counts as failed again from the moment the host is reported running; sensors without the option are unaffected by the host state. The host state known to the daemon is always the one last reported on the bus, off if never reported, whatever kind of source the sensor has.",
 ["histories", "configurations", "fault_sequences"], "all sequences of host state reports and sensor failures, all sensor kinds with and without the option",
 "Host-state gating has no test.",
 ["hoststatemonitor.hpp", "sensors/pluggable.cpp", "sensors/host.cpp", "sensors/builder.cpp"], [("HostStateMonitor", "hoststatemonitor.hpp"), ("getFailed", "sensors/pluggable.cpp, sensors/host.cpp")], ["sensor failed state; FailSafe property"])
prop("C24", "Fans in a failed redundancy group count as failed until it recovers",
 "A fan sensor counts as failed whenever it belongs to a redundancy group last reported as failed, both for groups already failed at start and for later reports, and stops counting as failed by that cause when the group is reported as not failed. Reports about other groups, incomplete reports and bus errors leave its state unchanged, and non-fan sensors are unaffected.",
 ["histories", "fault_sequences"], "all sequences of status reports over disjoint groups, initial states, lookup failures",
 "Redundancy handling has no test.",
 ["dbus/dbuspassiveredundancy.cpp", "dbus/dbuspassive.cpp", "sensors/builder.cpp"], [("DbusPassiveRedundancy", "dbus/dbuspassiveredundancy.cpp")], ["getFailed of fan sensors"])
prop("C25", "External sensors deliver the host's writes with their time and health",
 "An external sensor is published on the bus at its configured path, and every value written to it there is the next value read, together with the time of that write. It counts as failed exactly while its last written value is not finite (subject to host-off tolerance), and silence for its timeout puts its zone in failsafe until the next write.",
 ["histories", "inputs", "schedules"], "all sequences of writes of any value at any times relative to the cycles",
 "One constructor test exists, and its libraries are absent here.",
 ["sensors/host.cpp", "sensors/builder.cpp"], [("HostSensor::value / read / getFailed", "sensors/host.cpp")], ["sensor read(); D-Bus property; FailSafe property"])
prop("C26", "Concurrent updates never produce a torn reading",
 "When a sensor is updated and sampled from different threads, every sample pairs a value with its own time stamp and unscaled value, and samples taken by one thread never go back in time. This holds for D-Bus sensors and external sensors, with no data race on the reading.",
 ["schedules"], "all interleavings of updates and samples",
 "Tests are single-threaded.",
 ["dbus/dbuspassive.cpp", "sensors/host.cpp"], [("_lock", "dbus/dbuspassive.cpp, sensors/host.cpp")], ["read() results; thread sanitizer reports"])
prop("C27", "The bus shows each zone's and controller's true state at all times",
 "For every zone the bus carries one object whose Manual, FailSafe and Leader values are those the loop is acting on, and for every thermal controller one object with its class, set-point, enabled flag and the input, leading sensor and output of its last run. Changes of Manual, of Enabled and of a controller's input, leading sensor and output are announced by the bus's change signal. Read-only values cannot be changed from the bus, and only writes to Manual and Enabled influence control.",
 ["histories", "configurations"], "all zone numbers and controller names, reads between any two cycles",
 "The exported objects are never read back by a test.",
 ["pid/zone.cpp", "pid/builder.cpp", "pid/thermalcontroller.cpp"], [("addPidControlProcess, updateThermalPowerDebugInterface, failSafe, leader", "pid/zone.cpp"), ("getControlPath, getPidControlPath", "pid/builder.cpp")], ["properties of the exported objects"])
prop("C28", "A sysfs reading is the file's current value, or visibly not one",
 "Reading a sysfs sensor yields the integer currently in its file, fresh at that moment, and a wildcard path resolves to the file below the one matching folder. While the file cannot be read or parsed, the reading is not a number and keeps the time of the last good one, so that consumers ignore it and a configured timeout expires.",
 ["inputs", "fault_sequences", "histories"], "all integer contents, missing, empty and malformed files, files that come and go, wildcard paths",
 "No test covers sysfs access.",
 ["sysfs/sysfsread.cpp", "sysfs/sysfsread.hpp", "sysfs/util.cpp"], [("SysFsRead::read", "sysfs/sysfsread.cpp"), ("FixupPath", "sysfs/util.cpp")], ["read() results"])
prop("C29", "Start options and files select exactly the configuration and the modes",
 "The daemon runs the configuration file its command line names, else config.json from the first of its working folder, /var/lib/swampd and /usr/share/swampd that has one, and only when there is none the configuration on the bus; nothing else it finds has any influence, and a selected file that cannot be used ends it with an error instead of being passed over. Tuning, debugging, zone logging and core logging are each on exactly when their option was given or their file is in /etc/thermal.d at start, with the logging folder taken from the logging file when it names one that exists, else from the option, else the temporary folder. An option that cannot be honoured ends the start with an error and before any fan is touched.",
 ["configurations", "inputs", "fault_sequences"], "all combinations of options, enabling files, configurations in the places searched and elsewhere, and on the bus, usable and not",
 "No test runs the daemon's main.",
 ["main.cpp", "buildjson/buildjson.cpp"], [("main, searchConfigurationPath, restartControlLoops", "main.cpp"), ("parseValidateJson", "buildjson/buildjson.cpp")], ["zones and objects on the bus, fan writes, log files, exit status of the whole daemon"])
prop("C30", "The setsensor tool sets exactly what it names and tells the outcome",
 "A run of setsensor puts zone 1, and no other zone, into manual mode and gives the external margin sensor sluggish0, and no other sensor, the reading 300 as of now. For each of the two it says on its error output whether that succeeded, and a target that is not there leaves the other one to be set all the same.",
 ["inputs", "histories", "fault_sequences"], "all sets of zones and external sensors present, their states before, absent services, repeated runs",
 "No test builds or runs the tool.",
 ["setsensor.cpp"], [("SetManualMode, SetHostSensor", "setsensor.cpp")], ["manual mode of real zones and readings of real external sensors after the tool ran"])
prop("C31", "The fan sweep script takes the daemon through the whole range of speeds",
 "Given a lowest and a highest RPM with 1 <= lowest <= highest, fan_rpm_loop_test.sh makes four runs: up and down in ten steps, up and down in one. In each it starts the stopped daemon with the run's first speed in the daemon's set-point file, lets it settle for a minute, then puts each of the evenly spaced whole speeds from the first to the last there, both bounds exactly, the same ones in both directions, for 30 seconds each, stops the daemon and keeps the run's /tmp/swampd.log under a name telling the run's bounds, steps and seconds. Other or missing bounds are refused with an error before anything is done.",
 ["inputs"], "all pairs of bounds, files left over from before",
 "The script's own unit test only shows that it ends; it replaces the writing of the set-point.",
 ["tools/fan_rpm_loop_test.sh"], [("main, RunRpmSteps, CommandRpm", "tools/fan_rpm_loop_test.sh")], ["contents of the set-point file during each sleep; service starts and stops; kept logs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
        f.write(json.dumps(p) + "\n")
print(len(P))
