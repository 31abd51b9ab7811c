#pragma once
namespace sdbusplus::common::xyz::openbmc_project::state::decorator
{
class OperationalStatus
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.State.Decorator.OperationalStatus";
    struct property_names
    {
        static constexpr auto functional = "Functional";
    };
};
}
