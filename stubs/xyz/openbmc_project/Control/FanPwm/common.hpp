#pragma once
namespace sdbusplus::common::xyz::openbmc_project::control
{
class FanPwm
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Control.FanPwm";
    struct property_names
    {
        static constexpr auto target = "Target";
    };
};
}
