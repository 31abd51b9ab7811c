#!/usr/bin/env python3
"""Writes known_findings.json: repaired defects by commit (suppress nothing)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ('C33', 'do not remember a fan write that failed', 'DbusWrite/DbusWritePercent remembered the value of a write whose D-Bus call threw, so the same value was skipped as redundant afterwards'),
    ('C34', 'honour ignoreFailIfHostOff for host sensors', 'HostSensor was built without the configured ignoreFailIfHostOff and could never suppress a failure while the host was off'),
    ('C21', 'reject fans with an external read path', 'a fan with an external (timeout) read path got a host sensor, whose write aborts the daemon'),
    ('C25', 'refuse a fan controller without inputs', 'a fan controller without inputs was built although no fan is driven by it'),
    ('C23', 'keep the fraction of configured failsafe percentages', 'a configured failsafe percentage was truncated to an integer on its way into the controller configuration (also C27)'),
    ('C23', 'report missing mandatory keys of the JSON configuration', 'missing mandatory JSON keys were read through the const operator[] (undefined behaviour) instead of being reported (also C22)'),
    ('C31', 'wait for every zone before dropping the control loops', 'with two reloads pending, stopControlLoops dropped all zones as soon as the first one was free while the loop of another was still queued'),
    ('C47', 'do not report garbage when a sysfs file cannot be opened', 'SysFsRead::read returned an uninitialised value when the file could not be opened'),
    ('C47', 'initialise the value parsed from a setpoint file', 'fileParseRpm compared an uninitialised value when extraction did not run'),
    ('C47', 'initialise the reported duty when leaving the fans at failsafe', '~FanController stored an uninitialised duty when the writer does not report one'),
    ('C30', 'address zones above 127 by their own path over IPMI', 'getControlPath narrowed the zone number to int8_t: zones above 127 were addressed at a negative path'),
    ('C30', 'write the host sensor value with its D-Bus type in setsensor', 'setsensor sent an int64_t for the double property Sensor.Value.Value, which the sensor object rejects (also C49)'),
    ('C31', 'destroy the old sensors before building the new ones', 'a reload built the new sensors while the old ones still owned the same D-Bus object paths: registering an external sensor again failed (-EEXIST), on every retry'),
    ('C43', 'read the remaining fan redundancies when one cannot be read', 'at start-up one redundancy object whose properties cannot be read ended the search, failures of those listed after it went unnoticed'),
]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
out = []
for prop, msg, what in FIXED:
    h = [l.split()[0] for l in log if l.split(' ', 1)[1] == 'fix: ' + msg]
    assert h, msg
    out.append('fixed: property=%s %s %s' % (prop, h[0], what))
p = os.path.join(V, 'known_findings.json')
old = json.load(open(p)) if os.path.exists(p) else {'findings': []}
json.dump({'findings': old['findings'], 'fixed': out}, open(p, 'w'), indent=1)
print(len(out))
