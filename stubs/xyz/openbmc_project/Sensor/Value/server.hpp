#pragma once
#include <sdbusplus/stub_core.hpp>
#include <xyz/openbmc_project/Sensor/Value/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Sensor::server
{
class Value : public sdbusplus::common::xyz::openbmc_project::sensor::Value
{
  public:
    virtual ~Value();
    enum class Unit
    {
        DegreesC, RPMS, Volts, Meters, Amperes, Watts, Joules, Percent,
    };
    virtual double value() const;
    virtual double value(double value);
    virtual double value(double value, bool skipSignal);
    virtual double maxValue() const;
    virtual double maxValue(double value);
    virtual double maxValue(double value, bool skipSignal);
    virtual double minValue() const;
    virtual double minValue(double value);
    virtual double minValue(double value, bool skipSignal);
    virtual Unit unit() const;
    virtual Unit unit(Unit value);
    virtual Unit unit(Unit value, bool skipSignal);
};
}
