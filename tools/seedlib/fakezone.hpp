#pragma once
#include "interfaces.hpp"
#include "pid/zone_interface.hpp"
#include "sensors/sensor.hpp"
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

struct FakeSensor : pid_control::Sensor
{
    using Sensor::Sensor;
    struct W
    {
        double v;
        bool force;
    };
    std::vector<W> writes;
    pid_control::ReadReturn read() override
    {
        return {};
    }
    void write(double v) override
    {
        writes.push_back({v, false});
    }
    void write(double v, bool f, int64_t* w) override
    {
        writes.push_back({v, f});
        if (w)
            *w = static_cast<int64_t>(v * 255);
    }
};

struct FakeZone : pid_control::ZoneInterface
{
    std::map<std::string, pid_control::ValueCacheEntry> cache, out;
    std::map<std::string, std::unique_ptr<FakeSensor>> sensors;
    std::vector<std::pair<double, std::string>> setpoints;
    std::vector<double> ceilings;
    bool failsafe = false, manual = false, redundant = false, acc = false;
    double failPercent = 100, request = 0;
    int64_t getZoneID() const override { return 1; }
    void initializeLog() override {}
    void writeLog(const std::string&) override {}
    pid_control::Sensor* getSensor(const std::string& n) override
    {
        auto& s = sensors[n];
        if (!s)
            s = std::make_unique<FakeSensor>(n, 0);
        return s.get();
    }
    std::vector<std::string> getSensorNames() override { return {}; }
    void updateFanTelemetry() override {}
    void updateSensors() override {}
    void initializeCache() override {}
    void setOutputCache(std::string_view n, const pid_control::ValueCacheEntry& v) override
    {
        out[std::string(n)] = v;
    }
    double getCachedValue(const std::string& n) override { return cache.at(n).scaled; }
    pid_control::ValueCacheEntry getCachedValues(const std::string& n) override { return cache.at(n); }
    void addSetPoint(double s, const std::string& n) override { setpoints.emplace_back(s, n); }
    void clearSetPoints() override { setpoints.clear(); }
    void addRPMCeiling(double c) override { ceilings.push_back(c); }
    void clearRPMCeilings() override { ceilings.clear(); }
    void determineMaxSetPointRequest() override {}
    double getMaxSetPointRequest() const override { return request; }
    bool getFailSafeMode() const override { return failsafe; }
    double getFailSafePercent() override { return failPercent; }
    std::map<std::string, std::pair<std::string, double>> getFailSafeSensors() const override { return {}; }
    uint64_t getCycleIntervalTime() const override { return 100; }
    uint64_t getUpdateThermalsCycle() const override { return 1000; }
    bool getManualMode() const override { return manual; }
    bool getRedundantWrite() const override { return redundant; }
    bool getAccSetPoint() const override { return acc; }
    void processFans() override {}
    void processThermals() override {}
    void updateThermalPowerDebugInterface(std::string, std::string, double, double) override {}
};
