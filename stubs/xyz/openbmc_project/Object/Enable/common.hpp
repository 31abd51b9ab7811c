#pragma once
namespace sdbusplus::common::xyz::openbmc_project::object
{
class Enable
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Object.Enable";
    struct property_names
    {
        static constexpr auto enabled = "Enabled";
    };
};
}
