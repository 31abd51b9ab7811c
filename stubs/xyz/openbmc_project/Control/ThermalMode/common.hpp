#pragma once
namespace sdbusplus::common::xyz::openbmc_project::control
{
class ThermalMode
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Control.ThermalMode";
    struct property_names
    {
        static constexpr auto supported = "Supported";
        static constexpr auto current = "Current";
    };
};
}
