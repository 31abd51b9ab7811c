#pragma once
namespace sdbusplus::common::xyz::openbmc_project::debug::pid
{
class ThermalPower
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Debug.Pid.ThermalPower";
    struct property_names
    {
        static constexpr auto leader = "Leader";
    };
};
}
