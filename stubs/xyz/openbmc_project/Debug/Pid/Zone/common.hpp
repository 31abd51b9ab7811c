#pragma once
namespace sdbusplus::common::xyz::openbmc_project::debug::pid
{
class Zone
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Debug.Pid.Zone";
    struct property_names
    {
        static constexpr auto leader = "Leader";
    };
};
}
