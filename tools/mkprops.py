#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": None}})

p("C01", "Fan commands honour the failsafe duty",
  "Whenever a zone is in failsafe and tuning mode is off, the duty a fan controller commands is the larger of its computed output and the zone's current failsafe duty (exactly the failsafe duty when the strict-failsafe build option is on); in every other case it is the computed output itself. The duty is commanded as percent/100, in every pass, to every fan of the controller, with the zone's redundant-write flag.",
  ["inputs", "histories", "configurations"], "every computed output, failsafe state/duty, tuning/debug switch, number of fans and build option",
  "unit tests sample one or two fans and a handful of percentages with mocks; the strict build is never tested",
  ["pid/fancontroller.cpp"], [("FanController::outputProc", "pid/fancontroller.cpp")], observe=["the value handed to each fan sensor's write()"])
p("C02", "Failsafe list tracks failed and stale sensors exactly",
  "Each time a zone polls its sensors, a sensor that reports failure, or whose non-zero timeout has fully elapsed since its last update, is on the zone's failsafe list afterwards unless it is configured missing-acceptable; a sensor that is neither failed nor stale is off the list afterwards. Nothing outside start-up and polling changes the list, all polled sensors are treated (one bad sensor never shadows another), and the zone reports failsafe exactly while the list is non-empty.",
  ["inputs", "histories", "fault_sequences"], "every combination of failure, staleness, timeout, acceptability and earlier membership, for any number of sensors and polls",
  "zone.cpp is not even compiled in this sandbox; its unit tests poll one or two sensors once or twice",
  ["pid/zone.hpp", "pid/zone.cpp"], [("processSensorInputs", "pid/zone.hpp"), ("markSensorMissing, getFailSafeMode, updateSensors, updateFanTelemetry", "pid/zone.cpp")],
  state=[("_failSafeSensors", "sensors that hold the zone in failsafe", "pid/zone.hpp"), ("_missingAcceptable", "sensors never allowed to cause failsafe", "pid/zone.hpp")])
p("C03", "A zone starts in failsafe until each input has proven healthy",
  "When a zone's loop starts, every configured fan input and every configured thermal input gets a not-a-number cache entry and is put on the failsafe list (unless missing-acceptable), before any controller runs. Every input named by any controller configuration is registered as an input of its zone and with its missing-acceptable flag.",
  ["configurations", "histories"], "every zone configuration and every first cycle",
  "tests initialise a zone with at most two inputs and never drive the real start-up path",
  ["pid/zone.cpp", "pid/pidloop.cpp"], [("initializeCache, addFanInput, addThermalInput", "pid/zone.cpp"), ("pidControlLoop first pass", "pid/pidloop.cpp")])
p("C04", "Failsafe duty is the largest duty of the failing sensors",
  "The failsafe duty a zone reports is the largest duty recorded for the sensors currently on its failsafe list, and the zone's own configured duty when the list is empty or that maximum is zero. A sensor's recorded duty is its configured per-sensor duty, or the zone's duty if that is zero; when several controllers configure a duty for one sensor the largest applies.",
  ["inputs", "configurations"], "any number of failing sensors with any duties, any registration order",
  "tests use two sensors with fixed duties", ["pid/zone.cpp"],
  [("getFailSafePercent, markSensorMissing, addPidFailSafePercent", "pid/zone.cpp")], state=[("_sensorFailSafePercent", "per-sensor duty", "pid/zone.hpp")])
p("C05", "Zone request is max of enabled contributions, ceiling-capped, floored",
  "In each thermal pass the zone's fan setpoint request is the largest contribution among enabled control processes (in accumulate mode: the largest per-profile sum, a profile being the name after the first underscore), never below zero, lowered to the smallest ceiling if any, and finally raised to the zone's configured minimum; only in tuning mode may the setpoint file replace that. A disabled control process contributes nothing, and contributions and ceilings of an earlier pass never influence a later one.",
  ["inputs", "histories", "configurations"], "any sequence and number of contributions and ceilings, enabled flags, accumulate mode",
  "tests add two or three fixed setpoints; zone.cpp is not built here",
  ["pid/zone.cpp"], [("addSetPoint, addRPMCeiling, clearSetPoints, clearRPMCeilings, determineMaxSetPointRequest", "pid/zone.cpp")])
p("C06", "Each control cycle runs its stages in the required order",
  "In automatic mode every cycle first polls fan telemetry, then (when due) performs the thermal pass, and then drives the fans; a thermal pass polls the thermal sensors, discards the previous setpoints and ceilings, runs the thermal controllers and then arbitrates, in that order. A thermal pass is due whenever the accumulated fan-cycle time has reached the thermal period, which is then subtracted exactly once; the first cycle always initialises the cache and then performs a thermal pass.",
  ["schedules", "histories", "configurations"], "every cycle, cycle-time setting and logging switch",
  "the loop is driven by asynchronous timers and has no unit test at all",
  ["pid/pidloop.cpp"], [("pidControlLoop, processThermals", "pid/pidloop.cpp")])
p("C07", "The control loop always re-arms, unless cancelled",
  "Every completed cycle, in manual mode as well as automatic, schedules the next one at exactly one fan interval after the previous deadline; a loop that sees cancellation (flag or aborted wait) does nothing at all and does not re-arm.",
  ["schedules", "histories", "fault_sequences"], "every mode, cancellation point and cycle",
  "no test covers the asynchronous loop", ["pid/pidloop.cpp"], [("pidControlLoop and its timer handler", "pid/pidloop.cpp")])
p("C08", "Manual mode keeps hands off the fans; leaving it restores them",
  "While a zone is in manual mode its loop neither polls sensors nor runs any controller. Setting the mode back to automatic forces the next fan pass to write every fan even if the value is unchanged, the force persists until all fan controllers have run once and is then dropped, and the bus-visible manual and failsafe properties act on and report the live state.",
  ["histories", "schedules"], "every sequence of mode switches and cycles", "tests call the setters once; the loop is untested",
  ["pid/pidloop.cpp", "pid/zone.cpp"], [("setManualMode, manual, failSafe, processFans", "pid/zone.cpp"), ("pidControlLoop", "pid/pidloop.cpp")], state=[("_redundantWrite", "force-write flag", "pid/zone.hpp"), ("_manualMode", "manual flag", "pid/zone.hpp")])
p("C09", "PID step computes and limits its output as specified",
  "One PID step outputs P + I + D + feed-forward computed from the error (setpoint minus input), limited first to the output range and then, only once a previous step has run, by the configured negative and positive slew rates measured from the previous output. The integral term is zero when its coefficient is zero, otherwise the stored integral advanced by error*coefficient*time and limited to the integral range before use.",
  ["inputs", "histories", "configurations"], "every input, setpoint, coefficient set and history of steps", "no unit test calls the PID core directly",
  ["pid/ec/pid.cpp"], [("ec::pid, clamp", "pid/ec/pid.cpp")])
p("C10", "PID state carried between steps stays consistent and bounded",
  "After every PID step the stored integral lies within the integral range (back-calculated as output minus proportional term when a slew limit is active), the stored previous output equals the output returned, the stored previous error equals this step's error, and the loop is marked as started. Core logging being on or off, or the controller being named or not, changes none of this.",
  ["inputs", "histories"], "every step on every path", "no unit test observes the stored state after slew limiting",
  ["pid/ec/pid.cpp"], [("ec::pid", "pid/ec/pid.cpp")], state=[("pid_info_t", "controller state", "pid/ec/pid.hpp")])
p("C11", "PID hysteresis modes select the documented behaviour",
  "With setpoint-relative hysteresis a PID controller runs its PID step when the input is above setpoint plus the positive band, outputs zero and clears the integral when below setpoint minus the negative band, and otherwise repeats the last output. With input hysteresis the PID step sees a new input only when it moved beyond the band from the last used input (or none was used yet); with no band configured it sees every input. Each process pass reads setpoint and input, stores the output as the last output and emits it exactly once.",
  ["inputs", "histories", "configurations"], "every input sequence and band", "tests only cover two fixed sequences",
  ["pid/pidcontroller.cpp"], [("calPIDOutput, process", "pid/pidcontroller.cpp")])
p("C12", "Fan feedback is the slowest valid fan",
  "The input of a fan controller is the smallest of the finite, strictly positive unscaled readings of its fans, and zero when none qualifies. Its target is exactly the zone's current setpoint request, and the recorded direction says whether that rose, fell or stayed.",
  ["inputs", "configurations"], "any number of fans with any mix of readings", "tests use two fans and a few values",
  ["pid/fancontroller.cpp"], [("FanController::inputProc, setptProc", "pid/fancontroller.cpp")])
p("C13", "Thermal input selection follows the controller type",
  "The input of a thermal controller is the smallest (margin), largest (temp, power) or sum (powersum) of its finite sensor values, where a margin controller first converts an input flagged temperature-to-margin into zero-point minus temperature. Non-finite values are ignored, and when no input is usable the controller's own setpoint is used, so that the error is zero. The resulting output is contributed to the zone under the controller's own name.",
  ["inputs", "configurations"], "any number and mix of inputs and types", "tests use one or two inputs per type",
  ["pid/thermalcontroller.cpp"], [("ThermalController::inputProc, outputProc, getThermalType", "pid/thermalcontroller.cpp")])
p("C14", "Stepwise lookup returns the last reached step and stays in bounds",
  "The stepwise table lookup returns the output of the last point of the leading run of points whose readings are present and not above the input, and the first output if there is none; it never reads past the fixed table size and stops at the first absent point.",
  ["inputs", "configurations"], "every table and input", "tests use a single table", ["pid/ec/stepwise.cpp"], [("ec::stepwise", "pid/ec/stepwise.cpp")])
p("C15", "Stepwise controller hysteresis and routing",
  "A stepwise controller looks up a new output only on its first pass or when its input (the largest of its sensors' available values) moved beyond the positive or negative band since the last lookup, otherwise it repeats its last output; every pass emits the current output exactly once, as a ceiling if configured as one and as a setpoint contribution under its own name otherwise.",
  ["inputs", "histories", "configurations"], "every input sequence", "the class is not compiled here and has two unit tests",
  ["pid/stepwisecontroller.cpp"], [("StepwiseController::process, inputProc, outputProc", "pid/stepwisecontroller.cpp")])
p("C16", "D-Bus sensor failure verdict",
  "A D-Bus sensor is reported failed when its redundancy group marks it failed, when its object is missing, or when its reading is bad, its margin is exhausted, its threshold is asserted, it is unavailable or not functional; the only exemption is a non-fan sensor that is unavailable and configured not to treat that as failure, which overrides every cause but the first two. A sensor counts as a fan or margin sensor by its configured type alone. Whatever the cause other than redundancy, the reported reason names one that actually holds, in the same order of precedence, and asking for verdict or reason changes nothing.",
  ["inputs", "histories"], "all combinations of the nine condition flags", "dbuspassive is not built here and its tests set one flag at a time",
  ["dbus/dbuspassive.cpp"], [("DbusPassive::getFailed, getFailReason", "dbus/dbuspassive.cpp")])
p("C17", "D-Bus sensor signals update exactly the matching state",
  "A property-change signal with a sensor value updates the reading (unforced), one with a critical alarm sets the failed flag to whether either alarm is asserted, one with availability or operational status sets exactly that flag, and a sensor that turns unavailable has its reading forced to not-a-number. Signals of other interfaces or without the property change nothing, and warning alarms count only when that build option is on.",
  ["inputs", "histories", "configurations"], "every interface and property combination and both build options", "tests send a dozen fixed messages; not built here",
  ["dbus/dbuspassive.cpp"], [("handleSensorValue, dbusHandleSignal", "dbus/dbuspassive.cpp")])
p("C18", "Sensor reading acceptance, scaling and margin check",
  "A non-finite D-Bus reading marks the sensor bad and leaves the last reading and its timestamp untouched unless forced; a finite one clears the mark, is multiplied by ten to the sensor's scale, stored raw, and stored scaled to the sensor's range only if that range is valid (positive maximum above minimum), so no division by zero can occur. For margin sensors, exactly an unscaled reading of zero or less raises the exhausted-margin mark.",
  ["inputs", "histories"], "every reading, scale and range", "tests use three or four values; not built here",
  ["dbus/dbuspassive.cpp", "dbus/dbusutil.cpp"], [("updateValue, initFromSettings", "dbus/dbuspassive.cpp"), ("scaleSensorReading", "dbus/dbusutil.cpp")])
p("C19", "Readings and their timestamps are updated and read atomically",
  "For D-Bus and host-provided sensors, the value and its update time are always written together, stamped with the current time, and read together, while holding the sensor's lock.",
  ["schedules"], "every interleaving of updates and reads", "tests are single threaded",
  ["dbus/dbuspassive.cpp", "sensors/host.cpp"], [("setValue, read", "dbus/dbuspassive.cpp"), ("HostSensor::value, read", "sensors/host.cpp")])
p("C20", "Building a D-Bus sensor never hides an unreachable object",
  "Creating a D-Bus sensor yields no sensor for an unknown type, a missing helper, an unreachable service or failing property query, except that with missing-object handling built in, an object without a service yields a sensor that is permanently reported failed. A created sensor starts with the queried properties and threshold state, uses the configured path or the canonical path of its type, and drops the bus-provided range exactly when configured to.",
  ["inputs", "fault_sequences", "configurations"], "every failure point of the bus queries, both build options", "tests cover one failure each; not built here",
  ["dbus/dbuspassive.cpp", "dbus/dbushelper.cpp"], [("createDbusPassive", "dbus/dbuspassive.cpp"), ("getService, getProperties, thresholdsAsserted", "dbus/dbushelper.cpp")])
p("C21", "Sensors get the reader and writer their configuration asks for",
  "A sensor's read path and write path select its reader and writer by kind (none, external, D-Bus, sysfs); fans with a positive maximum get the percent-scaling writer of that kind with the configured range, other fans the raw one, and all other sensors a harmless no-op writer. Every configured sensor of a known type is registered once, under its name with its timeout and host-off setting, external ones published on the host connection; a sensor of unknown type is not registered, a fan with an external read path is rejected, and a build that cannot provide a reader or writer fails instead of registering a half-built sensor.",
  ["configurations"], "every sensor configuration", "builder.cpp has no unit test and is not built here",
  ["sensors/builder.cpp", "sensors/build_utils.cpp"], [("buildSensors", "sensors/builder.cpp"), ("getReadInterfaceType, getWriteInterfaceType", "sensors/build_utils.cpp")])
p("C22", "Sensor entries of the JSON configuration land in the right setting",
  "Every recognised key of a JSON sensor entry sets exactly the setting of that name, type and read path are mandatory, and each absent optional key yields the documented default (range 0..0, bus range used, unavailable counts as failed, host-off not ignored, timeout 0 for fans and 2 for others). Range limits are honoured for fans only, and every sensor is stored under its configured name.",
  ["configurations"], "every combination of present and absent keys", "tests parse five documents",
  ["sensors/buildjson.cpp", "sensors/sensor.hpp"], [("from_json(SensorConfig), buildSensorsFromJson", "sensors/buildjson.cpp"), ("getDefaultTimeout", "sensors/sensor.hpp")])
p("C23", "Controller and zone entries of the JSON configuration land correctly",
  "Every recognised key of a JSON controller or zone entry sets exactly the setting it names, mandatory keys are required, and absent optional keys yield the documented defaults (zero coefficients and bands, hysteresis-with-setpoint off, failsafe percent 0, stepwise points absent, accumulate off, cycle times 100 ms and 1000 ms). A zero cycle time is rejected in favour of the default, and every zone and controller is stored under its own id and name.",
  ["configurations"], "every combination of keys", "tests parse a handful of documents",
  ["pid/buildjson.cpp"], [("from_json(ControllerInfo), getCycleTimeSetting, buildPIDsFromJson", "pid/buildjson.cpp")])
p("C24", "Configured tuning values reach the running controllers unchanged",
  "Every PID tuning value of a controller configuration is copied to the same-named parameter of the controller built from it, and setpoint, inputs, type and stepwise table likewise reach the controller they configure; nothing else is initialised from it.",
  ["configurations"], "every configuration", "tests never compare the copied values",
  ["pid/util.cpp", "pid/fancontroller.cpp", "pid/thermalcontroller.cpp", "pid/stepwisecontroller.cpp"], [("initializePIDStruct", "pid/util.cpp"), ("createFanPid, createThermalPid, createStepwiseController", "pid/*controller.cpp")])
p("C25", "Zones are assembled completely from their configuration",
  "For every configured zone a zone object is created from that zone's own settings (a missing zone configuration is an error), and for every controller of it a live controller is added to the right list, together with its control process under the same name for thermal and stepwise controllers, and its failsafe duty for exactly its inputs. No null controller is ever installed, and the zone is published and returned under its own id.",
  ["configurations"], "every configuration", "builder.cpp has no unit test and is not built here",
  ["pid/builder.cpp"], [("buildZones", "pid/builder.cpp")])
p("C26", "Input options pair with the input they belong to",
  "Splicing controller inputs keeps every input name in order, gives the i-th temperature-to-margin zero point to the i-th input and to no other (surplus on either side ignored), and flags missing-acceptable exactly the inputs named in that list.",
  ["configurations"], "lists of any length", "tests use short fixed lists", ["util.cpp"], [("spliceInputs, splitNames", "util.cpp")])
p("C27", "D-Bus controller configuration lands in the right setting",
  "Every attribute of a D-Bus PID configuration object sets exactly the controller setting of that meaning, required attributes that are missing abort the load, optional ones default to zero or false, and a threshold-based setpoint is the configured setpoint plus the threshold read from the critical or warning interface its name belongs to. Configured sensor names resolve only to objects whose last path element is that name. Zone attributes are mapped likewise, and cycle times below 1 ms are rejected in favour of the default.",
  ["configurations"], "every attribute combination", "dbusconfiguration.cpp has no unit test and is not built here",
  ["dbus/dbusconfiguration.cpp"], [("populatePidInfo, getCycleTimeSetting, init", "dbus/dbusconfiguration.cpp")])
p("C28", "D-Bus stepwise tables are bounds-checked and terminated",
  "A D-Bus stepwise configuration is rejected unless it has between one and the maximum number of points and as many outputs as readings, before any of it is copied into the fixed-size table, and tables shorter than the maximum get an absent-point terminator directly after the last point.",
  ["configurations", "inputs"], "tables of every length", "no unit test exists", ["dbus/dbusconfiguration.cpp"], [("stepwise section of init", "dbus/dbusconfiguration.cpp")])
p("C29", "IPMI manual-mode commands are validated and answered consistently",
  "A fan-control IPMI request is answered by the handler of its sub-command only if it is long enough for that sub-command's layout, and with an error otherwise or when the sub-command is unknown. A reply byte and its length are produced exactly when the property query succeeded, a set request writes the manual property of the requested zone with the requested boolean, and errors of the zone access are returned, never masked.",
  ["inputs", "fault_sequences"], "every request length, sub-command, zone, value and access failure", "the IPMI code is not built or tested here",
  ["ipmi/manualcmds.cpp", "ipmi/dbus_mode.cpp"], [("manualModeControl and handlers", "ipmi/manualcmds.cpp"), ("DbusZoneControl", "ipmi/dbus_mode.cpp")])
p("C30", "All programs address the same bus names and zone objects",
  "The daemon, the IPMI provider and the set-sensor tool use the same well-known bus names and build the same object path for any zone number, so a command for zone N always reaches zone N of the daemon; zone numbers are never changed by the conversion into a path, and properties set from outside are sent with the type they have.",
  ["inputs", "programs"], "every zone number and all three programs", "the programs are never tested together",
  ["pid/builder.cpp", "main.cpp", "ipmi/dbus_mode.cpp", "setsensor.cpp"], [("getControlPath (three copies), bus names", "pid/builder.cpp, ipmi/dbus_mode.cpp, setsensor.cpp, main.cpp")])
p("C31", "Reload and shutdown tear the control loops down safely",
  "Stopping cancels every timer, raises the cancel flag before dropping the timers, refuses (to be retried) while a zone is still referenced elsewhere, and only then drops the zones and lowers the flag. A restart always stops first, replaces the sensors only after the old zones are gone (and destroys the old sensors, which own D-Bus objects at the same paths, before it builds the new ones), starts a loop with its own timer for every zone, starts none when the configuration is not ready, and a failed restart or stop is retried later rather than dropped; the process stops its event loop only after a successful stop.",
  ["schedules", "fault_sequences", "histories"], "every failure point and event order", "main.cpp has no unit test and is not built here",
  ["main.cpp"], [("stopControlLoops, restartControlLoops, tryRestartControlLoops, tryTerminateControlLoops, signalHandler", "main.cpp")])
p("C32", "Reload requests are debounced and never lost",
  "Every relevant configuration event and reload signal (re)starts a delay after which exactly one restart is requested unless a newer event superseded it; events that only concern associations are ignored; the signal handler re-arms itself after every signal it handles; match registration happens once.",
  ["schedules", "histories"], "every event sequence", "no unit test exists", ["main.cpp", "dbus/dbusconfiguration.cpp"], [("signalHandler", "main.cpp"), ("eventHandler, createMatches", "dbus/dbusconfiguration.cpp")])
p("C33", "Fan writes scale correctly and are skipped only when redundant",
  "A percent writer writes minimum + (maximum - minimum) * value and a raw writer the value itself, truncated to an integer, to its configured target. A D-Bus writer skips a write only if that integer equals the last one successfully written and no force is requested, reports the value in effect through the out parameter in every case, and never remembers a value whose write failed.",
  ["inputs", "fault_sequences", "histories"], "every value, range, force flag and write failure", "the writers have no unit test",
  ["dbus/dbuswrite.cpp", "sysfs/sysfswrite.cpp"], [("DbusWritePercent::write, DbusWrite::write", "dbus/dbuswrite.cpp"), ("SysFsWritePercent::write, SysFsWrite::write", "sysfs/sysfswrite.cpp")])
p("C34", "Sensor failures are ignored only while the host is off, if configured",
  "A failure of a sensor is suppressed exactly when that sensor is configured to ignore failures while the host is off and the host is currently off; otherwise the underlying verdict passes through. The host counts as running exactly when the last state seen ends in .Running, and as off when the state cannot be read at start.",
  ["inputs", "histories"], "every combination of verdict, setting and host state", "host state monitor is not built or tested here",
  ["sensors/pluggable.cpp", "sensors/host.cpp", "hoststatemonitor.hpp"], [("PluggableSensor::getFailed, HostSensor::getFailed", "sensors/"), ("HostStateMonitor", "hoststatemonitor.hpp")])
p("C35", "Wrapped sensors forward faithfully",
  "A composed sensor returns exactly what its reader returns and passes write requests with all their arguments to its writer exactly once; a host sensor stores the value it is told, stamps it, and refuses writes; read-only sensors ignore or reject writes as their kind says.",
  ["inputs"], "every call", "tests use mocks with one call each", ["sensors/pluggable.cpp", "sensors/host.cpp", "notimpl/readonly.cpp", "notimpl/writeonly.cpp"], [("forwarding methods", "sensors/pluggable.cpp")])
p("C36", "Failsafe messages are de-duplicated and rate-limited",
  "A failsafe message is printed only if fewer than the configured number were recorded less than a second ago and the same location and reason has not been recorded since the last failsafe state change; it is printed only for a zone that is in, or just leaving, failsafe, and each recorded message counts once towards the limit. A state change forgets the recorded messages.",
  ["histories", "inputs"], "every sequence of messages, states and times", "no unit test exists", ["failsafeloggers/failsafe_logger.cpp"], [("FailsafeLogger::outputFailsafeLog", "failsafeloggers/failsafe_logger.cpp")])
p("C37", "Failsafe loggers cover every zone and sensor",
  "Building the failsafe loggers replaces all earlier ones, creates one per zone with that zone's state and the given limit, and maps every thermal sensor of every zone to each zone using it exactly once; messages about a sensor go to each of its zones that has a logger, messages about a zone to its own logger only. Every start of the control loops rebuilds them for the zones it starts.",
  ["configurations", "histories"], "any number of zones and shared sensors", "no unit test exists", ["failsafeloggers/builder.cpp", "failsafeloggers/failsafe_logger_utility.hpp"], [("buildFailsafeLoggers", "failsafeloggers/builder.cpp"), ("outputFailsafeLogWithSensor, outputFailsafeLogWithZone", "failsafeloggers/failsafe_logger_utility.hpp")])
p("C38", "Log files keep header and rows in step",
  "In each CSV log the program writes (zone log, PID core log, PID coefficient log), every row has as many columns as the header and each column holds the quantity its heading names, for any number of fans and sensors.",
  ["configurations", "histories"], "any number of fans and thermal inputs", "no unit test looks at the logs", ["pid/zone.cpp", "pid/zone.hpp", "pid/pidloop.cpp", "pid/ec/logging.cpp"], [("initializeLog, updateFanTelemetry, processSensorInputs", "pid/zone.*"), ("DumpContextHeader/Data, DumpCoeffsHeader/Data", "pid/ec/logging.cpp")])
p("C39", "PID core log never drops changes and never mixes controllers",
  "When core logging is on, a PID step is logged whenever any logged quantity differs from the last logged one, or the last line is at least a minute old, or none was written since initialisation; otherwise it is not. Controllers of different names never share a log file, logging is refused on unusable or colliding names, and nothing is opened while core logging is off.",
  ["histories", "inputs", "configurations"], "every sequence of steps and names", "no unit test exists", ["pid/ec/logging.cpp", "pid/ec/logging.hpp"], [("LogInit, LogPeek, LogContext", "pid/ec/logging.cpp")])
p("C40", "Diagnostics never influence control",
  "Debug output, zone logging and core PID logging being on or off never changes what is written to fans, any control state, or any failsafe decision.",
  ["configurations", "inputs"], "every combination of the diagnostic switches", "tests run with all switches off", ["pid", "dbus", "sensors", "main.cpp"], [("debugEnabled, loggingEnabled, coreLoggingEnabled guards", "whole tree")])
p("C41", "Only the fan controllers drive fan outputs",
  "Fan outputs are written only by fan controllers (in their output step, and at their destruction when the offline-failsafe option is built in) through the sensor interface; nothing else in the daemon writes a sensor or a PWM target.",
  ["programs"], "every call path in the program", "absence of a call cannot be tested", ["pid", "sensors", "dbus", "sysfs"], [("who-may-call over the whole call graph", "whole tree")])
p("C42", "JSON documents are rejected unless structurally valid",
  "A JSON configuration is accepted only if the file opens and parses, it has exactly one non-empty sensor list, exactly one zone list, and every zone has exactly one non-empty controller list; everything else raises a configuration error before any of it is used.",
  ["inputs", "configurations"], "every document", "tests try a handful of documents", ["buildjson/buildjson.cpp"], [("validateJson, parseValidateJson", "buildjson/buildjson.cpp")])
p("C43", "Fan redundancy failures are tracked faithfully",
  "The set of sensors failed through redundancy gains exactly the members of a collection whose status reports failure, at start-up as well as on a status change, and loses exactly the members of a collection whose status reports otherwise; unreadable data changes nothing and does not keep the other collections from being read.",
  ["histories", "fault_sequences"], "every status sequence and read failure", "no unit test exists", ["dbus/dbuspassiveredundancy.cpp"], [("DbusPassiveRedundancy", "dbus/dbuspassiveredundancy.cpp")])
p("C44", "Going offline leaves the fans at the failsafe duty",
  "With the offline-failsafe option built in, destroying a fan controller writes the zone's failsafe duty to every one of its fans, while everything that write needs is still alive; without the option destruction writes nothing.",
  ["configurations", "histories"], "both build options, any number of fans", "the option is never built in tests", ["pid/fancontroller.cpp", "pid/zone.hpp", "main.cpp"], [("~FanController", "pid/fancontroller.cpp"), ("member order of DbusPidZone", "pid/zone.hpp")])
p("C45", "Zone numbers are unique and stable per zone name",
  "Every zone name maps to one number for the lifetime of a configuration load: a known name always yields its number, a new name gets the requested number or the next free one above it, and two names never share a number.",
  ["inputs", "configurations"], "every sequence of names and requested numbers", "tests use short sequences; not built here", ["dbus/dbusutil.cpp"], [("setZoneIndex, getZoneIndex", "dbus/dbusutil.cpp")])
p("C46", "Sensor-type tables agree with each other",
  "The places that classify controller and sensor types agree: every thermal type has a computation rule, a unit and an object path of its kind, each maps to the documented one, and an unknown type is rejected or mapped to unknown everywhere.",
  ["inputs", "programs"], "every type string", "tests sample some strings in some tables", ["pid/thermalcontroller.cpp", "dbus/dbusutil.cpp", "pid/zone.cpp", "sensors/builder.cpp"], [("getThermalType, isThermalType, validType, getSensorPath, getSensorUnit, addPidControlProcess", "several")])
p("C47", "No decision is made on an indeterminate value",
  "No local variable or object field of the control code is read before a value has been assigned to it on every path, including when a file or bus read fails.",
  ["inputs", "fault_sequences"], "every path of every function", "reading garbage is not observable in a passing test", ["sysfs/sysfsread.cpp", "pid", "dbus", "ipmi", "main.cpp"], [("definite assignment over all functions", "whole tree")])
p("C48", "Profile filtering and fan pairing of D-Bus configurations",
  "A D-Bus configuration object restricted to profiles is used exactly when one of its profiles is selected (or none is restricted or selected at all); a fan controller is accepted only with exactly one output for all inputs or one per input, each output being a PWM control object and paired with its own input; sensors on the wrong interface are rejected.",
  ["configurations"], "every configuration", "no unit test exists", ["dbus/dbusconfiguration.cpp"], [("init", "dbus/dbusconfiguration.cpp")])
p("C49", "D-Bus messages have the types of the method they call",
  "Every D-Bus method call the programs make carries exactly the argument types its method takes, its reply is read as the type the method returns, handled signals are read as what they carry, and a property is set with a value of the property's type.",
  ["configurations", "inputs"], "every message construction in the source", "no test has a bus; a wrong wire type fails only against a live peer",
  ["dbus", "ipmi", "setsensor.cpp", "hoststatemonitor.hpp"], [("every new_method_call, append, read and unpack", "whole tree")])
p("C50", "D-Bus configuration discovery loses nothing and starts afresh",
  "Loading the configuration from D-Bus starts from an empty configuration, watches for changes before it reads anything, finds every object with a PID, zone or stepwise configuration on every service that has one (asked at the object where that service has its object manager) and every sensor and PWM object (a value object whose path names a pwm does not count as a sensor), and fails rather than continues when the object mapper or such a service does not answer or nothing is known.",
  ["configurations", "fault_sequences"], "every set of services, objects and interfaces, and every failing call", "dbus/ is not built by the test suite and no test has a bus", ["dbus/dbusconfiguration.cpp"], [("init", "dbus/dbusconfiguration.cpp")])
p("C51", "Nothing that is kept refers to something already gone",
  "Callbacks kept for later (timer waits, bus matches, posted work) hold what they use by value or shared ownership, or refer only to objects that live as long as the program or own the callback. Objects that outlive the call creating them hold their configuration themselves instead of referring to their creator's data, no function hands out a reference or view of its own locals or of a temporary, and a list being walked is not changed unless the walk ends there or continues from the position the change returns, and nothing is used after it was moved away, erased, reallocated or left its scope.",
  ["schedules", "histories"], "every order of callbacks, reloads and destructions", "a dangling reference usually still reads plausible data in a short test", ["pid/pidloop.cpp", "main.cpp", "dbus/dbusconfiguration.cpp", "dbus/dbuspassiveredundancy.cpp", "hoststatemonitor.hpp", "pid/fancontroller.hpp", "pid/thermalcontroller.hpp", "pid/stepwisecontroller.hpp"], [('pidControlLoop (timer callback)', 'pid/pidloop.cpp'), ('controller and writer classes (members)', 'pid/*.hpp, dbus/*.hpp')])
p("C52", "What a zone publishes about its controllers is true",
  "Every thermal or stepwise controller has a control object of its own on D-Bus, created with the zone at the controller's own path, enabled and showing its configured setpoint. Each pass of a thermal controller publishes on that object the output it contributed and, whenever its selection changes, the leading input and its value. The zone's leader property names what decides the current maximum: the controller with the largest contribution, or the ceiling or minimum that overrides it; it does not keep naming an earlier one.",
  ["histories", "inputs"], "every sequence of passes and every set of controllers", "the zone and its D-Bus objects are not built by the tests that run, and a wrong name or a stale value disturbs nothing else", ["pid/zone.cpp", "pid/thermalcontroller.cpp", "pid/stepwisecontroller.cpp", "pid/builder.cpp"], [("DbusPidZone::addPidControlProcess/updateThermalPowerDebugInterface/determineMaxSetPointRequest", "pid/zone.cpp"), ("ThermalController::inputProc/outputProc", "pid/thermalcontroller.cpp")])
p("N01", "The closed loop keeps temperatures at their setpoints",
  "For a physically plausible plant and sensible tuning, the temperatures controlled by a zone converge to their setpoints without sustained oscillation.",
  ["histories", "inputs"], "every plant and disturbance", "no plant exists in the tests", ["pid/ec/pid.cpp"], [("ec::pid", "pid/ec/pid.cpp")])
p("N02", "Cycles meet their real-time deadlines",
  "A zone's fan pass completes within its configured cycle time, so that deadlines do not drift behind real time.",
  ["schedules"], "every load", "timing is not tested", ["pid/pidloop.cpp"], [("timer re-arm", "pid/pidloop.cpp")])
p("N03", "Memory and log growth stay bounded over time",
  "Running for arbitrarily long keeps the daemon's memory within a fixed bound for a fixed configuration.",
  ["histories"], "every run length", "tests are short", ["pid/zone.cpp", "failsafeloggers/failsafe_logger.cpp"], [("containers cleared per cycle", "several")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
