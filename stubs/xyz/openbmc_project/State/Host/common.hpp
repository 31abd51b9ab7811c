#pragma once
namespace sdbusplus::common::xyz::openbmc_project::state
{
class Host
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.State.Host";
    struct property_names
    {
        static constexpr auto current_host_state = "CurrentHostState";
        static constexpr auto requested_host_transition = "RequestedHostTransition";
        static constexpr auto restart_cause = "RestartCause";
    };
};
}
