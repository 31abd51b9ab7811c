#pragma once
namespace sdbusplus::common::xyz::openbmc_project::control
{
class Mode
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Control.Mode";
    struct property_names
    {
        static constexpr auto manual = "Manual";
        static constexpr auto fail_safe = "FailSafe";
    };
};
}
