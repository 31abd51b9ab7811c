#pragma once
#include <sdbusplus/stub_core.hpp>
#include <xyz/openbmc_project/Debug/Pid/ThermalPower/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Debug::Pid::server
{
class ThermalPower : public sdbusplus::common::xyz::openbmc_project::debug::pid::ThermalPower
{
  public:
    virtual ~ThermalPower();
    virtual double setpoint() const;
    virtual double setpoint(double value);
    virtual double setpoint(double value, bool skipSignal);
    virtual std::string classType() const;
    virtual std::string classType(std::string value);
    virtual std::string classType(std::string value, bool skipSignal);
    virtual double output() const;
    virtual double output(double value);
    virtual double output(double value, bool skipSignal);
    virtual std::string leader() const;
    virtual std::string leader(std::string value);
    virtual std::string leader(std::string value, bool skipSignal);
    virtual double input() const;
    virtual double input(double value);
    virtual double input(double value, bool skipSignal);
};
}
