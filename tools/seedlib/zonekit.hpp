#pragma once
#include "pid/zone.hpp"
#include "sensors/manager.hpp"
#include "sensors/sensor.hpp"
#include <chrono>
#include <cmath>
#include <cstdio>
#include <map>
#include <memory>
#include <string>
#include <sdbusplus/stub_core.hpp>

struct KitSensor : pid_control::Sensor
{
    using Sensor::Sensor;
    pid_control::ReadReturn r{};
    bool failed = false;
    std::string reason = "bad";
    pid_control::ReadReturn read() override { return r; }
    void write(double) override {}
    bool getFailed() override { return failed; }
    std::string getFailReason() override { return reason; }
};

struct Kit
{
    sdbusplus::bus_t bus;
    pid_control::SensorManager mgr{bus, bus};
    std::map<std::string, KitSensor*> s;
    std::unique_ptr<pid_control::DbusPidZone> z;
    void sensor(const std::string& type, const std::string& n, int64_t timeout = 0)
    {
        auto p = std::make_unique<KitSensor>(n, timeout);
        s[n] = p.get();
        mgr.addSensor(type, n, std::move(p));
    }
    void zone(double min, double failsafe, bool acc = false, pid_control::conf::CycleTime ct = {})
    {
        z = std::make_unique<pid_control::DbusPidZone>(1, min, failsafe, ct, mgr, bus, "/z", false, acc);
    }
};
